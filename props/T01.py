"""T01: files are rewritten completely or not at all."""
import builtins
from collections import namedtuple
from asterisklint.helper.mutator import FileMutatorBase
from props.disk import CWD, Disk, Node, Stopped
from props.fs import ROOT

BOUNDS = {
    'quick': 'files of up to three lines of any 2 bytes each (line ends '
             'among them), any of the lines to be changed, up to twice, reported once or twice; a '
             'failure or the end of the process at any operation of the '
             'file system; plain files and links, absolute, relative and to '
             'another link; any mode and owner; two files; any answer of up '
             'to 3 characters; a file of 12 lines and one with a line of 9000 '
             'bytes, up to three changes on any lines, in any order',
    'thorough': 'four lines; three changes on a line; a file of 40 lines',
}
OUTSIDE = 'files that are longer yet; loss of power (nothing is written through to the ' \
    'disk); other processes that change the file meanwhile'
COVERS = ('changed', 'twice', 'untouched', 'failed', 'killed', 'link',
          'relative', 'chain', 'owner', 'mode', 'refused', 'agreed',
          'second file', 'killed after', 'again', 'many')
Issue = namedtuple('Issue', 'lineno text')


class Mutator(FileMutatorBase):
    def process_issue(self, issue, inline, outfile):
        outfile.write(issue.text)
        outfile.write(inline)


class Broken(FileMutatorBase):
    def process_issue(self, issue, inline, outfile):
        outfile.write(b'half')
        raise AssertionError('cannot')


def answer(text):
    def ask(prompt=''):
        return text
    return ask


def lines_of(data):
    out = data.split(b'\n')
    out = [t + b'\n' for t in out[0:-1]] + [out[-1]]
    return out[0:-1] if not out[-1] else out


def expected(data, issues):
    out = b''
    for i, line in enumerate(lines_of(data)):
        for issue in issues:
            if issue.lineno == i:
                line = issue.text + line
        out += line
    return out


def go(ctx, disk, issues, text=None, cls=Mutator):
    """-> whether it said that all was well"""
    saved = builtins.input
    if text is not None:
        builtins.input = answer(text)
    try:
        with disk:
            m = cls(issues)
            if text is None:
                m.process()
            else:
                m.request_permission_and_process()
        return True
    except Stopped:
        ctx.check(disk.kill, 'goes on after a failure')
        return False
    except (OSError, AssertionError) as e:
        ctx.observe('error', type(e).__name__)
        return False
    finally:
        builtins.input = saved


def issues_for(ctx, data, most, tag=''):
    out = []
    for i in range(len(lines_of(data))):
        for k in range(ctx.int('times%s%d' % (tag, i), 0, most)):
            out.append(Issue(i, b'<%d%d' % (i, k)))
            if k:
                ctx.cover('twice')
    return out


def change(ctx, n, most):
    """All of the lines that are to be changed are, and no other."""
    data = ctx.bytes('data', n, b'ab\r\n\0'.decode('ascii'))
    issues = issues_for(ctx, data, most)
    ctx.assume(issues != [])
    disk = Disk({'d/f': Node(data)})
    given = issues
    if ctx.bool('again'):
        # As when the file is included twice.
        ctx.cover('again')
        given = issues + issues
    ctx.check(go(ctx, disk, {ROOT + 'd/f': given}), 'done')
    ctx.cover('changed')
    if not [i for i in issues if i.lineno == 0]:
        ctx.cover('untouched')
    ctx.check(list(disk.nodes) == [ROOT + 'd/f'], 'nothing else')
    got = disk.nodes[ROOT + 'd/f'].data
    ctx.observe('got', got)
    ctx.check(got == expected(data, issues), 'contents', (got, issues))


def many(ctx, count, wide):
    """Many lines, long lines; the issues come in any order."""
    mark = ctx.bytes('mark', 1, 'ab\0')
    lines = [b'%d' % i * (wide if i == 3 else 1) + mark + (
        b'\r\n' if i % 4 == 1 else b'\n') for i in range(count)]
    data = b''.join(lines) + (b'tail' if ctx.bool('tail') else b'')
    a = ctx.int('a', 0, count - 1)
    b = ctx.int('b', 0, count - 1)
    issues = [Issue(a, b'<1'), Issue(b, b'<2')]
    if ctx.bool('third'):
        issues.append(Issue(a, b'<3'))
    disk = Disk({'d/f': Node(data)})
    ctx.check(go(ctx, disk, {ROOT + 'd/f': issues}), 'done')
    ctx.cover('many')
    ctx.check(list(disk.nodes) == [ROOT + 'd/f'], 'nothing else')
    got = disk.nodes[ROOT + 'd/f'].data
    ctx.check(got == expected(data, issues), 'many', (len(got), issues))


def faults(ctx, kill, link, broken=False):
    """At any point."""
    a, b = ctx.bytes('a', 1, 'xy'), ctx.bytes('b', 1, 'xy')
    data = a + b'\n' + b + b'\nlast'
    issues = issues_for(ctx, data, 1)
    ctx.assume(issues != [])
    uid = ctx.int('uid', 6, 7)
    mode = ctx.choice('mode', [0o600, 0o644, 0o4755])
    fault = ctx.int('fault', 0, 25)
    nodes = {'d/f': Node(data, mode, uid, uid)}
    name = 'd/f'
    if link == 'absolute':
        nodes['e/l'] = Node(ROOT + 'd/f')
        name = 'e/l'
    elif link == 'relative':
        nodes['e/l'] = Node('../d/f')
        name = 'e/l'
        ctx.cover('relative')
    elif link == 'same':
        nodes['d/l'] = Node('f')
        name = 'd/l'
    elif link == 'chain':
        nodes['e/l'] = Node('../c/m')
        nodes['c/m'] = Node(ROOT + 'd/f')
        name = 'e/l'
        ctx.cover('chain')
    elif link == 'cwd':
        nodes = {'cwd/f': nodes['d/f']}
        name = None
    if link:
        ctx.cover('link')
    file = 'cwd/f' if link == 'cwd' else 'd/f'
    disk = Disk(nodes, fault, kill)
    before = sorted(disk.nodes)
    ok = go(ctx, disk, {ROOT + name if name else 'f': issues}, None,
            Broken if broken else Mutator)
    left = [p for p in sorted(disk.nodes) if p not in before]
    ctx.observe('log', disk.log)
    ctx.check([p for p in before if p not in disk.nodes] == [], 'not gone')
    for p in before:
        if p != ROOT + file:
            ctx.check(disk.nodes[p] is nodes[p[len(ROOT):]], 'links stay', p)
    node = disk.nodes[ROOT + file]
    want = expected(data, issues)
    ctx.check((node.mode, node.uid, node.gid) == (mode, uid, uid),
              'owner and mode', (node.mode, node.uid))
    if ok:
        ctx.check(not broken, 'said so')
        if not disk.failed:
            ctx.check(node.data == want, 'changed')
            if uid != 7:
                ctx.cover('owner')
            if mode != 0o600:
                ctx.cover('mode')
        else:
            # It may have got over it.
            ctx.check(node.data == want, 'changed all the same', disk.log)
    elif disk.kill and disk.failed:
        ctx.cover('killed')
        if node.data == want:
            ctx.cover('killed after')
        ctx.check(node.data == data or node.data == want, 'one or the other',
                  node.data)
    else:
        ctx.cover('failed')
        ctx.check(node.data == data, 'as before', node.data)
    if not disk.stopped:
        ctx.check(left == [], 'nothing left', left)


def modes(ctx):
    """Any mode and owner."""
    mode = ctx.int('mode', 0, 0o7777)
    uid, gid = ctx.int('uid', 0, 65535), ctx.int('gid', 0, 65535)
    node = Node(b'x\n', mode, uid, gid)
    disk = Disk({'d/f': node})
    ctx.check(go(ctx, disk, {ROOT + 'd/f': [Issue(0, b'<')]}), 'done')
    node = disk.nodes[ROOT + 'd/f']
    ctx.check(node.data == b'<x\n', 'changed')
    ctx.check(node.mode == mode, 'mode', (node.mode, mode))
    ctx.check((node.uid, node.gid) == (uid, gid), 'owner')


def several(ctx):
    """Two files, one of which may fail."""
    data = [ctx.bytes('data%d' % i, 2, 'x\n') for i in range(2)]
    names = ['d/a', 'e/b']
    issues = {}
    order = [1, 0] if ctx.bool('turn') else [0, 1]
    for i in order:
        mine = issues_for(ctx, data[i], 1, str(i) + '-')
        if mine:
            issues[ROOT + names[i]] = mine
    fault = ctx.int('fault', 0, 25)
    disk = Disk(dict((names[i], Node(data[i])) for i in range(2)), fault)
    ok = go(ctx, disk, issues)
    done = 0
    for i in range(2):
        got = disk.nodes[ROOT + names[i]].data
        want = expected(data[i], issues.get(ROOT + names[i], []))
        ctx.check(got == data[i] or got == want, 'one or the other', got)
        if ok:
            ctx.check(got == want, 'both')
            ctx.cover('second file')
    ctx.check(len(disk.nodes) == 2, 'nothing left')


def ask(ctx, n):
    """Only after a y."""
    text = ctx.str('text', n, 'yYn es')
    data = b'x\n'
    disk = Disk({'f': Node(data)})
    some = ctx.bool('some')
    ok = go(ctx, disk, {ROOT + 'f': [Issue(0, b'<')]} if some else {}, text)
    ctx.check(ok, 'no error')
    got = disk.nodes[ROOT + 'f'].data
    if text == 'y' and some:
        ctx.cover('agreed')
        ctx.check(got == b'<x\n', 'changed')
        ctx.check((ROOT + 'f') in ctx.output('out'), 'listed')
    elif text[0:1] != 'y' or not some:
        ctx.cover('refused')
        ctx.check(got == data, 'as before')
    ctx.check(len(disk.nodes) == 1, 'nothing else')


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 8 if big else 6):
        out.append(('change%d' % n, change, {'n': n,
                                             'most': 3 if big else 2}))
    for link in (None, 'absolute', 'relative', 'same', 'chain', 'cwd'):
        for kill in (False, True):
            out.append(('%s-%s' % ('kill' if kill else 'fail', link), faults,
                        {'kill': kill, 'link': link}))
    out.append(('broken', faults, {'kill': False, 'link': None,
                                   'broken': True}))
    out.append(('several', several, {}))
    out.append(('many12', many, {'count': 12, 'wide': 1}))
    out.append(('wide5', many, {'count': 5, 'wide': 9000}))
    if big:
        out.append(('many40', many, {'count': 40, 'wide': 70}))
    out.append(('modes', modes, {}))
    for n in range(0, 4):
        out.append(('ask%d' % n, ask, {'n': n}))
    return out
