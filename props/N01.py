"""N01: files in the style of VoIPGRID."""
import asterisklint
import asterisklint.file
import asterisklint.mainutil
from importlib import import_module
from props import dp
from props.common import MemFile, fresh, raised

BOUNDS = {
    'quick': 'lines of 0..6 characters out of eight (quotes and parentheses '
             'among them), three lines of any indentation and up to 2 '
             'characters each, an include at any of three places; '
             'two odd lines in a fold of ten, five long texts; three '
             'sections of any one-character names out of three, with two '
             'settings each, as dialplan, as func_odbc.conf and as other '
             'configuration; seven command names and five '
             'lists of further arguments',
    'thorough': 'lines of up to 7 characters',
}
OUTSIDE = 'quotes that hold other quotes, or single ones that hold ' \
    'parentheses; the labels and jumps of a section that was replaced; ' \
    'general and globals twice'
COVERS = ('nested', 'comment', 'fold', 'fold of nothing', 'include',
          'replaced', 'blank', 'no command', 'command')
MINE = {}


def setup():
    dp.warm()
    places = [(asterisklint.file, 'FileReader'),
              (asterisklint, 'FileConfigParser'),
              (asterisklint, 'FileDialplanParser'),
              (asterisklint, 'FileFuncOdbcParser'),
              (asterisklint.mainutil, 'FileFuncOdbcParser')]
    saved = [getattr(m, n) for m, n in places]
    MINE['vg'] = import_module('contrib.commands.vg')
    for (m, n), value in zip(places, saved):
        MINE[m.__name__ + '.' + n] = getattr(m, n)
        setattr(m, n, value)


def split(ctx, text):
    """Where does the comment start?"""
    inside = []
    for i, c in enumerate(text):
        if c == ';' and not inside:
            ctx.cover('comment')
            return i
        if c in '"\'':
            if inside and inside[-1] == c:
                inside = inside[0:-1]
            else:
                ctx.assume(not (inside and inside[-1] in '"\''))
                inside = inside + [c]
        elif c in '()':
            if inside and inside[-1] in '"\'':
                ctx.assume(inside[-1] == '"')
            elif c == '(':
                inside = inside + [c]
            elif inside:
                inside = inside[0:-1]
        elif c == ';':
            ctx.cover('nested')
    return len(text)


def spec(ctx, files):
    """-> items, messages"""
    out, said = [], []
    stack = [('m', 0)]
    prev = None
    while stack:
        name, at = stack[-1]
        if at >= len(files[name]):
            stack = stack[0:-1]
            continue
        stack[-1] = (name, at + 1)
        text = files[name][at][0:-1]
        fold = prev is not None and text[0:1] != '' and text[0] in ' \t'
        if prev is not None and not fold:
            out.append(prev)
            prev = None
        n = len(text)
        while n and text[n - 1] in ' \t':
            n -= 1
        if n != len(text):
            said.append(('W_WSH_EOL', name, at + 1))
        text = text[0:n]
        i = split(ctx, text)
        data, comment = text[0:i], text[i:]
        n = len(data)
        while n and data[n - 1] in ' \t':
            n -= 1
        if comment and n and n == len(data):
            said.append(('W_WSH_COMMENT', name, at + 1))
        data, comment = data[0:n], data[n:] + comment
        if fold:
            ctx.cover('fold')
            if not prev[2]:
                ctx.cover('fold of nothing')
                said.append(('W_WSH_BOL', name, at + 1))
            prev = (prev[0], prev[1], prev[2] + data, prev[3] + comment)
        elif data[0:1] == '#':
            ctx.cover('include')
            out.append((name, at + 1, data, comment))
            stack.append((data[9:], 0))
        else:
            prev = (name, at + 1, data, comment)
    if prev is not None:
        out.append(prev)
    return out, said


def judge(ctx, files):
    fresh()
    reader = MINE['asterisklint.file.FileReader'](
        opener=lambda n: MemFile(n, [t.encode('ascii') for t in files[n]]))
    reader.include('m')
    got = []
    for where, data, comment in reader:
        got.append((where.filename, where.lineno, data, comment))
        if data[0:1] == '#':
            reader.include(data[9:])
    want, said = spec(ctx, files)
    ctx.observe('got', got)
    ctx.check(got == want, 'lines', (got, want))
    mine = [m for m in raised() if m[0].startswith('W_WSH')]
    if [m for m in mine if m[0] == 'W_WSH_EOL']:
        ctx.cover('blank')
    ctx.check(sorted(mine) == sorted(said), 'messages', (mine, said))


def one(ctx, n, before='', after=''):
    judge(ctx, {'m': [before + ctx.str('text', n, 'a ;"\'()\\') + after +
                      '\n']})


def many(ctx, count):
    """A long fold with something else in two places."""
    a = ctx.choice('a', list(range(1, count // 2)))
    b = ctx.choice('b', list(range(count // 2, count)))
    lines = []
    for i in range(count):
        if i in (a, b):
            lines.append(ctx.choice('lead%d' % (i == a), ['', '\t'] if i == a else
                                    ['', ' ']) +
                         ctx.str('text%d' % (i == a), 1, 'a;(') + '\n')
        else:
            lines.append('%s%d;%d\n' % (' ' * 4 * (i > 0), i, i))
    judge(ctx, {'m': lines})


def folds(ctx, n):
    lines = []
    for i in range(n):
        lines.append(ctx.choice('lead%d' % i, ['', ' ', '\t']) + ctx.str(
            'text%d' % i, ctx.choice('n%d' % i, [0, 1, 2]),
            'a ;(' if n < 3 else 'a;') + '\n')
    judge(ctx, {'m': lines})


def includes(ctx, at):
    lead = [ctx.choice('lead%d' % i, ['', ' ']) for i in range(4)]
    text = [ctx.str('text%d' % i, 1, 'a; ') + '\n' for i in range(4)]
    ctx.assume(not (lead[2] + text[2])[0:1] == '#')
    main = [lead[i] + text[i] for i in (0, 1)]
    main[at:at] = ['#include f\n']
    judge(ctx, {'m': main, 'f': [lead[i] + text[i] for i in (2, 3)]})


def sections(ctx, kind):
    """A section replaces those of its name."""
    lines = []
    want = []
    k = 0
    if kind == 'Dialplan':
        lines += ['[general]\n', '[globals]\n']
    for i in range(3):
        name = ctx.str('name%d' % i, 1, 'ABC')
        lines.append('[' + name + ']\n')
        inner = []
        for j in range(2):
            if kind == 'Dialplan':
                lines.append('exten => %d,1,NoOp()\n' % k)
                inner.append(str(k))
            elif kind == 'FuncOdbc':
                key = ['dsn', 'readsql'][j]
                lines.append('%s=%d\n' % (key, k))
                inner.append(str(k))
            else:
                lines.append('x=%d\n' % k)
                inner.append(str(k))
            k += 1
        if [w for w in want if w[0] == name]:
            ctx.cover('replaced')
        want = [w for w in want if w[0] != name] + [(name, inner)]
    fresh()
    reader = MINE['asterisklint.File%sParser' % kind](
        opener=lambda n: MemFile(n, [t.encode('ascii') for t in lines]))
    reader.include('m')
    if kind == 'Dialplan':
        plan = [d for d in reader][0]
        got = [(c.name, [e.pattern.raw for e in c]) for c in plan.contexts]
        for name, inner in want:
            ctx.check([e.pattern.raw for e in plan.get_context(name)] ==
                      inner, 'by name')
    else:
        got = [(c.name, [v.value for v in c]) for c in reader]
    ctx.observe('got', got)
    ctx.check(got == want, 'sections', (got, want))
    ctx.check([m[0] for m in raised() if not m[0].startswith('H_WSV')] == [],
              'no messages', [m[0] for m in raised()])


class Command(object):
    def __init__(self):
        self.args = None

    def main(self, args, envs):
        self.args = args
        return 3


def command(ctx):
    """The command behind it is run."""
    name = ctx.choice('name', ['a', 'b', 'a-b', 'a.b', 'aa', '', 'A'])
    rest = ctx.choice('rest', [[], ['x'], ['x', '-y'], ['-h'], ['', 'x']])
    rest = list(rest)
    mine = Command()
    asked = []

    def load(text, path=None):
        asked.append(text)
        if text == 'a':
            return mine
        raise ImportError('none')
    vg = MINE['vg']
    saved = vg.load_command
    vg.load_command = load
    try:
        ret = vg.main([name] + rest, {})
    finally:
        vg.load_command = saved
    ctx.check(asked == [name], 'asked for', asked)
    if name == 'a':
        ctx.cover('command')
        ctx.check(ret == 3 and mine.args == rest, 'run', (ret, mine.args))
    else:
        ctx.cover('no command')
        ctx.check(ret == 1 and name in ctx.output(), 'refused')


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 8 if big else 7):
        out.append(('one%d' % n, one, {'n': n}))
    for n in range(1, 4):
        out.append(('folds%d' % n, folds, {'n': n}))
    for k, (before, after) in enumerate((
            ('(' * 9, ')' * 9 + ';'), ('"' + 'x' * 200, '";x'),
            ('(")" ' * 9, ';y'), ('a;' + 'b' * 90, ''),
            ('"(" ' * 6, ' ; z'))):
        out.append(('far%d' % k, one, {
            'n': 3, 'before': before, 'after': after}))
    out.append(('many', many, {'count': 14 if big else 10}))
    for at in range(0, 3):
        out.append(('includes%d' % at, includes, {'at': at}))
    for kind in ('Dialplan', 'FuncOdbc', 'Config'):
        out.append(('sections' + kind, sections, {'kind': kind}))
    out.append(('command', command, {}))
    return out
