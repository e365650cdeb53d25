"""C04: settings end up in the section they stand in."""
from asterisklint.config import ConfigAggregator
from asterisklint.file import FileReader
from props.common import MemFile, fresh, names, raised

BOUNDS = {
    'quick': 'files of 0..5 lines: headers with an arbitrary one-character '
             'name, settings with arbitrary one-character name and value, '
             '= or =>, blanks; an include of 2 lines at any of 3 lines; two '
             'such lines at any places among 30 others, of one file or of '
             'three that include each other',
    'thorough': 'files of 0..6 lines; an include of 3 lines at any of 4',
}
OUTSIDE = 'longer files; templates'
COVERS = ('missing', 'same name', 'include', 'arrow')


class Reader(ConfigAggregator, FileReader):
    pass


NAME = 'printable:-[];=#\\ ()<>"'


def make(ctx, tag, kind):
    """-> (line, meaning)"""
    if kind == 'blank':
        return b'\n', None
    if kind == 'section':
        name = ctx.str(tag + 's', 1, NAME)
        return ('[' + name + ']\n').encode('ascii'), ('section', name)
    var = ctx.str(tag + 'k', 1, NAME)
    val = ctx.str(tag + 'v', 1, NAME)
    sep = '=' if kind == 'equals' else ' => '
    return ((var + sep + val + '\n').encode('ascii'),
            ('setting', var, val, kind != 'equals'))


def judge(ctx, files, flat):
    def opener(path):
        return MemFile(path, files[path])
    reader = Reader(opener=opener)
    reader.include('m')
    got = [(c.name, c.where.filename, c.where.lineno,
            [(v.variable, v.value, v.arrow, v.where.filename,
              v.where.lineno) for v in c]) for c in reader]
    want = []
    early = []
    for fname, lineno, what in flat:
        if what is None:
            continue
        if what[0] == 'section':
            if [w for w in want if w[0] == what[1]]:
                ctx.cover('same name')
            want.append((what[1], fname, lineno, []))
        elif not want:
            ctx.cover('missing')
            early.append(('E_CONF_CTX_MISSING', fname, lineno))
        else:
            if what[3]:
                ctx.cover('arrow')
            want[-1][3].append(what[1:] + (fname, lineno))
    ctx.observe('got', got)
    ctx.check(len(got) == len(want), 'number of sections', (got, want))
    for g, w in zip(got, want):
        ctx.check(g[:3] == w[:3], 'section header', (got, want))
        ctx.check(g[3] == w[3], 'settings of a section', (got, want))
    ctx.check([r for r in raised() if r[0] == 'E_CONF_CTX_MISSING'] == early,
              'settings before any section are reported')
    ctx.check([n for n in names() if n[:5] not in ('W_WSV', 'H_WSV')] ==
              (['E_CONF_CTX_MISSING'] if early else []), 'no other messages',
              names())


KINDS = ['blank', 'section', 'equals', 'arrow']


def plain(ctx, n):
    fresh()
    lines, flat = [], []
    for i in range(n):
        kind = ctx.choice('kind%d' % i, KINDS)
        line, what = make(ctx, 'l%d' % i, kind)
        lines.append(line)
        flat.append(('m', i + 1, what))
    judge(ctx, {'m': lines}, flat)


def include(ctx, n, m):
    fresh()
    at = ctx.choice('at', list(range(n)))
    outer, inner, flat = [], [], []
    for i in range(n):
        if i == at:
            ctx.cover('include')
            outer.append(b'#include f\n')
            for j in range(m):
                kind = ctx.choice('in%d' % j, KINDS[1:3])
                line, what = make(ctx, 'i%d' % j, kind)
                inner.append(line)
                flat.append(('f', j + 1, what))
            continue
        kind = ctx.choice('kind%d' % i, KINDS[1:3])
        line, what = make(ctx, 'o%d' % i, kind)
        outer.append(line)
        flat.append(('m', i + 1, what))
    judge(ctx, {'m': outer, 'f': inner}, flat)


def many(ctx, nested):
    fresh()
    kinds = ['section', 'equals', 'equals', 'arrow', 'blank', 'section',
             'section', 'arrow'] * 4
    if ctx.choice('headless', [False, True]):
        kinds[0] = 'equals'
    at = [ctx.choice('at0', list(range(1, 9))),
          ctx.choice('at1', list(range(10, 31)) if not nested else [15, 29])]
    lines, flat = [], []
    for i in range(len(kinds)):
        if i in at:
            line, what = make(ctx, 'l%d' % i, ctx.choice('kind%d' % i, KINDS))
        elif kinds[i] == 'section':
            name = 'section-%d' % (i // 3)
            line, what = b'[' + name.encode('ascii') + b']\n', \
                ('section', name)
        elif kinds[i] == 'blank':
            line, what = b'\n', None
        else:
            arrow = kinds[i] == 'arrow'
            line = b'name%d%svalue %d\n' % (i, b' => ' if arrow else b'=', i)
            what = ('setting', 'name%d' % i, 'value %d' % i, arrow)
        lines.append(line)
        flat.append(what)
    if not nested:
        judge(ctx, {'m': lines},
              [('m', i + 1, w) for i, w in enumerate(flat)])
        return
    # m: 0..a, f: a..b, g: b..c, f: c..d, m: d..
    a = ctx.choice('a', [1, 5])
    b = ctx.choice('b', [6, 12])
    c, d = 18, ctx.choice('d', [18, 25])
    files = {'m': lines[0:a] + [b'#include f\n'] + lines[d:],
             'f': lines[a:b] + [b'#include g\n'] + lines[c:d],
             'g': lines[b:c]}
    out = [('m', i + 1) for i in range(a)] + \
        [('f', i + 1) for i in range(b - a)] + \
        [('g', i + 1) for i in range(c - b)] + \
        [('f', i + 1 + b - a + 1) for i in range(d - c)] + \
        [('m', i + 1 + a + 1) for i in range(len(lines) - d)]
    judge(ctx, files, [o + (w,) for o, w in zip(out, flat)])


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 7 if big else 6):
        out.append(('plain%d' % n, plain, {'n': n}))
    for nested in (False, True):
        out.append(('many%d' % nested, many, {'nested': nested}))
    for n in range(1, 5 if big else 4):
        for m in range(0, 4 if big else 3):
            out.append(('include%d-%d' % (n, m), include, {'n': n, 'm': m}))
    return out
