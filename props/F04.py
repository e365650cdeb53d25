"""F04: included files: order, positions, path resolution, missing files."""
from asterisklint.config import ConfigParser
from asterisklint.file import FileReader
from props.common import Opener, fresh, names, lines_of, msgs, count

BOUNDS = {
    'quick': 'a main file of 0..4 lines, each a variable or one of four '
             'include forms; two includable files of 2 lines, one of which '
             'includes the other; file names of 1..4 characters over '
             '{a b . / -}, main file in 4 directories; chains of up to 8 '
             'files of up to 40 lines in any directories; files that cannot be '
             'opened for any of nine reasons',
    'thorough': 'main file of 0..5 lines, file names of 1..6 characters',
}
OUTSIDE = 'files that include themselves; longer chains'
COVERS = ('include', 'tryinclude', 'missing', 'trymissing', 'nested',
          'absolute', 'relative', 'refused')


class Reader(ConfigParser, FileReader):
    pass


KINDS = ('var', 'inc-b', 'inc-c', 'try-b', 'inc-x', 'try-x')
TEXT = {'inc-b': b'#include b.conf\n', 'inc-c': b'#include "c.conf"\n',
        'try-b': b'#tryinclude b.conf\n', 'inc-x': b'#include <x.conf>\n',
        'try-x': b'#tryinclude x.conf\n'}


def order(ctx, n):
    fresh()
    b = [b'b1=1\n', b'#include c.conf\n', b'b3=3\n']
    c = [b'c1=1\n', b'c2=2\n']
    lines = []
    want = []
    missing = []
    for i in range(n):
        kind = ctx.choice('line%d' % i, KINDS)
        if kind == 'var':
            lines.append(b'v%d=x\n' % i)
            want.append(('d/a.conf', i + 1, 'v%d' % i))
            continue
        lines.append(TEXT[kind])
        if kind.endswith('x'):
            ctx.cover('missing' if kind == 'inc-x' else 'trymissing')
            if kind == 'inc-x':
                missing.append(i + 1)
            continue
        ctx.cover('include' if kind.startswith('inc') else 'tryinclude')
        if kind.endswith('b'):
            ctx.cover('nested')
            want.append(('d/b.conf', 1, 'b1'))
        want.append(('d/c.conf', 1, 'c1'))
        want.append(('d/c.conf', 2, 'c2'))
        if kind.endswith('b'):
            want.append(('d/b.conf', 3, 'b3'))
    opener = Opener([('d/a.conf', lines), ('d/b.conf', b), ('d/c.conf', c)])
    reader = Reader(opener=opener)
    reader.include('d/a.conf')
    got = [(e.where.filename, e.where.lineno, e.variable) for e in reader]
    ctx.check(got == want, 'element order and positions', (got, want))
    ctx.check(lines_of('W_PP_INCLUDE_MISSING') == missing,
              'missing include is reported at its line', names())
    ctx.observe('got', got)
    ctx.observe('names', names())


DIRS = ('', 'd/', 'd/e/', '/x/')


def chain(ctx, n):
    """Each file includes the next one, after some lines, and goes on."""
    fresh()
    files, want, ends = [], [], []
    here = ''
    name = 'f0'
    for i in range(n + 1):
        last = i == n
        k = ctx.choice('n%d' % i, [0, 40] if i in (0, 2) else [i])
        step = '' if last else (
            DIRS[(i * 7) % 4] if i not in (1, n - 1) else
            ctx.choice('d%d' % i, DIRS))
        nxt = step + 'f%d' % (i + 1)
        lines = [b'a=%d\n' % j for j in range(k)]
        want += [(name, j + 1, str(j)) for j in range(k)]
        if not last:
            lines += [b'#include ' + nxt.encode('ascii') + b'\n', b'b=1\n']
            ends = [(name, k + 2, '1')] + ends
        files.append((name, lines))
        if not last:
            if step.startswith('/'):
                here = step
            else:
                here = here + step
            name = here + 'f%d' % (i + 1)
    reader = Reader(opener=Opener(files))
    reader.include('f0')
    got = [(e.where.filename, e.where.lineno, e.value) for e in reader]
    ctx.check(got == want + ends, 'elements', (got, want + ends))
    ctx.check(names() == [] or not count('W_PP_INCLUDE_MISSING'), 'found')


def path(ctx, n, main, directive, quote):
    fresh()
    name = ctx.str('name', n, 'ab./-')
    # quoting is C02
    text = directive + ' ' + quote[0] + name + quote[1]
    opener = Opener([(main, [b'a=1\n', text.encode('ascii') + b'\n',
                             b'b=2\n'])])
    reader = Reader(opener=opener)
    reader.include(main)
    got = [(e.where.lineno, e.variable) for e in reader]
    ctx.check(got == [(1, 'a'), (3, 'b')], 'parsing goes on')
    base = main[:main.rfind('/') + 1]
    want = name if name.startswith('/') else base + name
    ctx.cover('absolute' if name.startswith('/') else 'relative')
    ctx.check(len(opener.opened) == 2, 'one file is opened',
              opener.opened)
    ctx.check(opener.opened[1] == want, 'path relative to including file',
              (opener.opened[1], want))
    miss = msgs('W_PP_INCLUDE_MISSING')
    ctx.check(len(miss) == (1 if directive == '#include' else 0),
              'missing file', names())
    ctx.observe('opened', opener.opened)


REFUSED = (FileNotFoundError(2, 'x'), NotADirectoryError(20, 'x'),
           IsADirectoryError(21, 'x'), PermissionError(13, 'x'),
           OSError(36, 'File name too long'), OSError(24, 'Too many'),
           OSError(40, 'Too many levels of symbolic links'),
           OSError(5, 'I/O'), ValueError('embedded null byte'))


def refused(ctx):
    """A file that is there but cannot be opened is missing, too."""
    fresh()
    why = ctx.choice('why', REFUSED)
    name = ctx.str('name', 1, 'byz')
    text = ctx.choice('directive', ['#include ', '#tryinclude '])
    nested = ctx.bool('nested')
    lines = [b'a=1\n', (text + name + '\n').encode('ascii'), b'b=2\n']
    files = [('b', why), ('y', [b'c=3\n'])]
    if nested:
        files += [('m', [b'd=4\n', b'#include n\n', b'e=5\n']), ('n', lines)]
    else:
        files += [('m', lines)]
    reader = Reader(opener=Opener(files))
    reader.include('m')
    got = ''.join(e.variable for e in reader)
    want = 'acb' if name == 'y' else 'ab'
    ctx.cover('include' if name == 'y' else 'refused' if name == 'b' else
              'missing')
    ctx.check(got == ('d' + want + 'e' if nested else want), 'elements', got)
    ctx.check([(m.where.filename, m.where.lineno, m.fmtkwargs['filename'])
               for m in msgs('W_PP_INCLUDE_MISSING')] ==
              ([('n' if nested else 'm', 2, name)]
               if name != 'y' and text == '#include ' else []), 'messages')


def jobs(tier):
    out = [('refused', refused, {})]
    for n in range(0, 5 if tier == 'quick' else 6):
        out.append(('order%d' % n, order, {'n': n}))
    for n in (2, 3, 4, 7):
        out.append(('chain%d' % n, chain, {'n': n}))
    for n in range(1, 5 if tier == 'quick' else 7):
        for main in ('a.conf', 'etc/a.conf', '/etc/ast/a.conf', '/a.conf'):
            for directive in ('#include', '#tryinclude'):
                for quote in ('""', '<>', ('', '')):
                    out.append(('path%d-%s-%s-%s' % (
                        n, main, directive, ''.join(quote)), path, {
                            'n': n, 'main': main, 'directive': directive,
                            'quote': quote}))
    return out
