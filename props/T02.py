"""T02: the rewriting scripts change what they are for, and nothing else."""
import builtins
import sys
from importlib import import_module
from asterisklint import FileDialplanParser
from asterisklint.defines import MessageDefManager
from props import dp
from props.common import fresh, count, msgs
from props.disk import Disk, Node
from props.fs import ROOT

BOUNDS = {
    'quick': 'any pattern of up to 4 characters out of ten after the '
             'underscore, written in six ways of a line, in one file or '
             'one that is included, once or twice; any old style ExecIf of '
             'a condition, an application and up to four characters of '
             'arguments, nested or two of them',
    'thorough': 'patterns of up to 5 characters, arguments of up to 5',
}
OUTSIDE = 'longer text; what the canonical form is (P02) and what is an old ' \
    'style condition (A06)'
COVERS = ('canonical', 'rewritten', 'included', 'included twice', 'several',
          'exec', 'exec args', 'not possible', 'nothing to do')


def setup():
    dp.warm()


def script(ctx, name, disk, text):
    """Run it as a user would -> False if it could not do it."""
    modname = 'contrib.' + name
    sys.modules.pop(modname, None)
    saved = builtins.input, sys.argv, list(sys.path)
    builtins.input = lambda prompt='': text
    sys.argv = [name, ROOT + 'd/m']
    try:
        with disk:
            import_module(modname)
        return True
    except (AssertionError, NotImplementedError) as e:
        ctx.observe('refused', type(e).__name__)
        return False
    finally:
        sys.modules.pop(modname, None)
        builtins.input, sys.argv = saved[0:2]
        sys.path[:] = saved[2]
        MessageDefManager.muted = False


def lint(disk):
    """The shown dialplan."""
    fresh()
    MessageDefManager.muted = True
    with disk:
        parser = FileDialplanParser()
        parser.include(ROOT + 'd/m')
        shown = [d.format_as_dialplan_show() for d in parser]
    MessageDefManager.muted = False
    return shown


HEAD = b'[general]\n[globals]\n[a]\nexten => 7,1,NoOp(_z)\n'
# Ways of writing an extension; @ is the pattern.
FORMS = [b'exten => @,1,NoOp(x)', b'exten=>@,1(_zx),NoOp(_z.)',
         b'exten = @,1,NoOp(@) ;@', b'  exten  =>  @,1, Set(@=@)',
         b'exten => @,1,NoOp\n same => n,NoOp(@)',
         b'ignorepat => @\nexten => @,1,NoOp']


def canonical(ctx, n, alpha, form, include):
    pat = b'_' + ctx.bytes('pat', n, alpha)
    line = form.replace(b'@', pat) + b'\n'
    files = {'d/m': HEAD + line + b'exten => _Z,1,NoOp(' + pat + b')'}
    main = 'd/m'
    if include:
        ctx.cover('included')
        files = {'d/m': HEAD + b'#include i\n' * include, 'd/i': line}
        main = 'd/i'
    disk = Disk(dict((k, Node(files[k])) for k in files))
    before = lint(disk)
    todo = msgs('H_PAT_NON_CANONICAL')
    if include == 2 and todo:
        ctx.cover('included twice')
    want = dict(files)
    if todo:
        ctx.cover('canonical')
        # It is the first thing after the arrow.
        at = files[main].find(pat, files[main].find(
            line) + (line.find(b'exten')))
        want[main] = (files[main][0:at] +
                      todo[0].fmtkwargs['expected'].encode('utf-8') +
                      files[main][at + len(pat):])
    else:
        ctx.cover('nothing to do')
    fresh()
    ok = script(ctx, 'make_patterns_canonical', disk, 'y')
    ctx.check(ok, 'done')
    ctx.check(sorted(disk.nodes) == [ROOT + k for k in sorted(files)],
              'files')
    for k in files:
        got = disk.nodes[ROOT + k].data
        ctx.observe('got-' + k, got)
        ctx.check(got == want[k], 'contents', (got, want[k]))
    after = lint(disk)
    if proper(pat):
        ctx.check(not count('H_PAT_NON_CANONICAL'), 'all are done')
        ctx.check(parts(after) == parts(before), 'the same dialplan',
                  (before, after))


def proper(pat):
    """All sets are closed and there is something in them."""
    inside = None
    for i in range(len(pat)):
        c = pat[i:i + 1]
        if c == b'[' and inside is None:
            inside = 0
        elif c == b']':
            if not inside:
                return False
            inside = None
        elif inside is not None:
            inside += 1
    return inside is None and pat.replace(b'-', b'') != b'_'


def parts(shown):
    """All but the patterns, which may move."""
    return sorted([line[18:] for text in shown for line in text.split('\n')])


def several(ctx, n):
    """More than one in a file."""
    lines = []
    want = []
    for i in range(n):
        pat = ctx.choice('pat%d' % i, [b'_x', b'_X', b'_[3-5]x.', b'_1-2',
                                       b'1-2', b'_n!'])
        new = {b'_x': b'_X', b'_[3-5]x.': b'_[345]X.', b'_1-2': b'12',
               b'_n!': b'_N!'}.get(pat, pat)
        lines.append(b'exten => %s,%d,NoOp(%s)\n' % (pat, 9 - i, pat))
        want.append(b'exten => %s,%d,NoOp(%s)\n' % (new, 9 - i, pat))
    disk = Disk({'d/m': Node(HEAD + b''.join(lines))})
    ctx.check(script(ctx, 'make_patterns_canonical', disk, 'y'), 'done')
    ctx.cover('several')
    ctx.check(disk.nodes[ROOT + 'd/m'].data == HEAD + b''.join(want),
              'contents', disk.nodes[ROOT + 'd/m'].data)


EXECS = [
    # old, new; @ are the arguments.
    (b'ExecIf($[${x}],NoOp,@)', b'ExecIf($[${x}]?NoOp(@))'),
    (b'ExecIf(${x},Set,y=@)', b'ExecIf(${x}?Set(y=@))'),
    (b'ExecIf(${x},NoOp)', b'ExecIf(${x}?NoOp())'),
    (b'ExecIf(${x}?NoOp(@))', None),
    (b'ExecIf(${x}?NoOp(@):Set(y=@))', None),
    (b'ExecIf(${x}?ExecIf(${y},NoOp,@))',
     b'ExecIf(${x}?ExecIf(${y}?NoOp(@)))'),
    (b'ExecIf(${x}?ExecIf(${y},NoOp,@):ExecIf(${z},NoOp,@))',
     b'ExecIf(${x}?ExecIf(${y}?NoOp(@)):ExecIf(${z}?NoOp(@)))'),
    (b'NoOp(ExecIf($[${x}],NoOp,@))', None),
]


def execs(ctx, n, which):
    """The old style of ExecIf."""
    text = ctx.bytes('text', n, 'ab,;' if n < 4 else 'a,;') if n else b''
    old, new = EXECS[which]
    # Empty arguments at the end are not written again.
    ctx.assume(text[-1:] != b',' and text[0:1] != b',')
    if ';' in text.decode('ascii'):
        ctx.cover('not possible' if new else 'nothing to do')
    raw = text.replace(b';', b'\\;')
    other = b' same => n,NoOp(${x},NoOp,' + raw + b')\n'
    data = (HEAD + other + b' same => n(a),' + old.replace(b'@', raw) +
            b' ;c\n' + other)
    want = (HEAD + other + b' same => n(a),' + (new or old).replace(
        b'@', raw) + b' ;c\n' + other)
    disk = Disk({'d/m': Node(data)})
    lint(disk)
    ctx.check((new is not None) == (count('E_APP_ARG_IFSTYLE') > 0),
              'it is that', count('E_APP_ARG_IFSTYLE'))
    ok = script(ctx, 'convert_dp_104_to_1100', disk, 'y')
    got = disk.nodes[ROOT + 'd/m'].data
    ctx.observe('got', got)
    ctx.check(len(disk.nodes) == 1, 'nothing else')
    if not ok:
        # Escaped semicolons are beyond it.
        ctx.check(b';' in text, 'done')
        ctx.check(got == data, 'as before', got)
        return
    ctx.cover('exec args' if n else 'exec')
    if new:
        ctx.cover('rewritten')
    ctx.check(got == want, 'contents', (got, want))
    lint(disk)
    ctx.check(count('E_APP_ARG_IFSTYLE') == 0, 'all are done')


def refused(ctx, name):
    """Any answer but y."""
    text = ctx.str('text', ctx.choice('n', [0, 1, 2, 3]), 'yYnes ')
    data = HEAD + b'exten => _x,1,ExecIf(${x},NoOp,a)\n'
    disk = Disk({'d/m': Node(data)})
    ctx.check(script(ctx, name, disk, text), 'done')
    if text[0:1] != 'y':
        ctx.check(disk.nodes[ROOT + 'd/m'].data == data, 'as before')
    if text == 'y':
        ctx.check(disk.nodes[ROOT + 'd/m'].data != data, 'changed')


def jobs(tier):
    big = tier != 'quick'
    out = []
    for i, form in enumerate(FORMS):
        for n in range(1, 6 if big else 5):
            if n == 4 and i > 1 and not big:
                continue
            out.append(('form%d-%d' % (i, n), canonical, {
                'n': n, 'alpha': 'xXz1-[].!n' if n < 4 else 'xX1-[].',
                'form': form, 'include': 0}))
    for include in (1, 2):
        for n in range(1, 4):
            out.append(('include%d-%d' % (include, n), canonical, {
                'n': n, 'alpha': 'xX1-[]', 'form': FORMS[n],
                'include': include}))
    out.append(('several', several, {'n': 4 if big else 3}))
    for i in range(len(EXECS)):
        for n in range(0, 6 if big else 5):
            if n or i == 2:
                out.append(('exec%d-%d' % (i, n), execs, {
                    'n': n, 'which': i}))
    for name in ('make_patterns_canonical', 'convert_dp_104_to_1100'):
        out.append(('refused-' + name, refused, {'name': name}))
    return out
