"""C02: preprocessor directives."""
from asterisklint.config import ConfigParser
from asterisklint.file import FileReader
from props.common import MemFile, fresh, names, count, msgs

BOUNDS = {
    'quick': 'three directives with 0..4 arbitrary ASCII characters after '
             'the word (all but LF, semicolon, backslash), one arbitrary '
             'character anywhere in the word; include trees of 3 files with '
             '3 lines each; 2 such characters around or inside names of up to '
             '250; chains of 7 files',
    'thorough': '0..6 characters after the word; include trees of 4 files',
}
OUTSIDE = 'files that (indirectly) include themselves; a lone quote ' \
    'character as file name'
COVERS = ('bad', 'missing', 'tried', 'exec', 'included', 'quoted', 'oddquote')


class Reader(ConfigParser, FileReader):
    pass


class Fs(object):
    """Every name that starts with the given letter exists."""

    def __init__(self, letter):
        self.opened = []
        self.letter = letter

    def __call__(self, path):
        self.opened.append(path)
        if path == 'd/main':
            return MemFile(path, self.main)
        if path[-1:] == self.letter:
            return MemFile(path, [b'[inner]\n'])
        raise FileNotFoundError(2, 'No such file', path)


def spec(s):
    """-> (outcome, argument, warnings)"""
    warn = []
    lead = 0
    while s[lead].isspace():
        lead += 1
    if lead:
        warn.append('W_WSH_BOL')
    s = s[lead:]
    for word in ('#include', '#tryinclude', '#exec'):
        if s[:len(word)] == word:
            break
    else:
        return 'bad', None, warn + ['E_CONF_BAD_LINE']
    arg = s[len(word):]
    k = 0
    tabs = spaces = others = 0
    while k < len(arg) and arg[k] <= ' ':
        if arg[k] == '\t':
            tabs += 1
        elif arg[k] == ' ':
            spaces += 1
        else:
            others += 1
        k += 1
    if k == 0 or k == len(arg):
        return 'bad', None, warn + ['E_CONF_BAD_LINE']
    if others or (tabs and spaces):
        warn.append('W_WSH_CTRL')
    arg = arg[k:]
    first, last = arg[0], arg[-1]
    if (first == '"' and last == '"') or (first == '<' and last == '>'):
        arg = arg[1:-1]
    elif first in '<"' or last in '>"':
        warn.append('W_PP_QUOTE_BAD')
    return word, arg, warn


def judge(ctx, body):
    fs = Fs('x')
    fs.main = [(body + '\n').encode('ascii'), b'[outer]\n']
    reader = Reader(opener=fs)
    reader.include('d/main')
    got = [(e.name, e.where.filename, e.where.lineno) for e in reader]
    ctx.observe('got', got)
    ctx.observe('names', names())
    word, arg, warn = spec(body)
    want = []
    opened = ['d/main']
    if word == 'bad':
        ctx.cover('bad')
    elif word == '#exec':
        ctx.cover('exec')
        warn = warn + ['W_PP_EXEC']
    else:
        path = arg if arg[:1] == '/' else 'd/' + arg
        opened.append(path)
        if path[-1:] == 'x':
            ctx.cover('included')
            want.append(('inner', path, 1))
        elif word == '#include':
            ctx.cover('missing')
            warn = warn + ['W_PP_INCLUDE_MISSING']
        else:
            ctx.cover('tried')
        if 'W_PP_QUOTE_BAD' in warn:
            ctx.cover('oddquote')
        elif len(arg) and body[-1] in '">':
            ctx.cover('quoted')
    want.append(('outer', 'd/main', 2))
    ctx.check(got == want, 'elements', (got, want))
    ctx.check(fs.opened == opened, 'files opened', (fs.opened, opened))
    for name in ('W_WSH_BOL', 'W_WSH_CTRL', 'E_CONF_BAD_LINE', 'W_PP_EXEC',
                 'W_PP_QUOTE_BAD', 'W_PP_INCLUDE_MISSING'):
        ctx.check(count(name) == (1 if name in warn else 0), name,
                  (names(), warn))
        for m in msgs(name):
            ctx.check(m.where.filename == 'd/main' and m.where.lineno == 1,
                      'position of ' + name)
    for m in msgs('W_PP_EXEC'):
        ctx.check(m.fmtkwargs == {'cmd': arg}, 'command in the message')
    for m in msgs('W_PP_INCLUDE_MISSING'):
        ctx.check(m.fmtkwargs == {'filename': arg}, 'name in the message')


def strip(s):
    n = len(s)
    while n and s[n - 1] in ' \t':
        n -= 1
    return s[:n]


def argument(ctx, word, n):
    fresh()
    s = ctx.str('arg', n, 'asciiq:-\r\n;\\')
    body = strip(word + s)
    ctx.assume(ctx.not_(body[-2:-1] <= ' ' if body[-1:] == '"' and
                        len(body) > len(word) + 1 else False))
    judge(ctx, body)


def quoted(ctx, word, ws, n):
    fresh()
    a = ctx.str('a', 1, ' \t\x01')
    q = ctx.str('q', 1, '"<>a/')
    s = ctx.str('s', n, 'asciiq:-\r\n;\\')
    r = ctx.str('r', 1, '"<>ax')
    lead = ctx.str('lead', ws, ' \t')
    judge(ctx, lead + word + ' ' + a + q + s + r)


def far(ctx, word, head, tail):
    fresh()
    s = ctx.str('s', 2, 'asciiq:-\r\n;\\')
    body = strip(word + ' ' + head + s + tail)
    ctx.assume(ctx.not_(body[-2:-1] <= ' ' if body[-1:] == '"' else False))
    judge(ctx, body)


def typo(ctx, word, i):
    fresh()
    c = ctx.str('c', 1, 'asciiq:-\r\n;\\ \t')
    judge(ctx, '#' + word[1:1 + i] + c + word[2 + i:] + ' x')


def tree(ctx, nfiles, nlines):
    """a includes b, b includes c ...; the include sits at any line."""
    fresh()
    at = [ctx.choice('at%d' % i, list(range(nlines)))
          for i in range(nfiles - 1)]
    files = {}
    for i in range(nfiles):
        lines = []
        for j in range(nlines):
            if i < nfiles - 1 and j == at[i]:
                lines.append(('#include f%d\n' % (i + 1)).encode('ascii'))
            else:
                lines.append(('[c%d%d]\n' % (i, j)).encode('ascii'))
        files['d/f%d' % i] = lines

    def expand(i):
        out = []
        for j in range(nlines):
            if i < nfiles - 1 and j == at[i]:
                out.extend(expand(i + 1))
            else:
                out.append(('c%d%d' % (i, j), 'd/f%d' % i, j + 1))
        return out

    def opener(path):
        return MemFile(path, files[path])
    reader = Reader(opener=opener)
    reader.include('d/f0')
    got = [(e.name, e.where.filename, e.where.lineno) for e in reader]
    ctx.observe('got', got)
    ctx.check(got == expand(0), 'include order', (got, at))
    ctx.check(names() == {}, 'no messages', names())


def jobs(tier):
    big = tier != 'quick'
    out = []
    for word in ('#include', '#tryinclude', '#exec'):
        for n in range(0, 6 if big else 5):
            out.append(('arg%s%d' % (word, n), argument,
                        {'word': word, 'n': n}))
        for n in range(0, 5 if big else 3):
            for ws in (0, 1):
                out.append(('quoted%s%d-%d' % (word, ws, n), quoted,
                            {'word': word, 'ws': ws, 'n': n}))
        for i, head in enumerate(('"' + 'a/' * 120, 'a b' * 60, '</' +
                                  'c' * 80, '"a', '<../')):
            for j, tail in enumerate(('', 'x"', 'b' * 200 + 'x>', 'x',
                                      '.x')):
                out.append(('far%s%d-%d' % (word, i, j), far,
                            {'word': word, 'head': head, 'tail': tail}))
        for i in range(len(word) - 1):
            out.append(('typo%s%d' % (word, i), typo,
                        {'word': word, 'i': i}))
    out.append(('tree', tree, {'nfiles': 4 if big else 3,
                               'nlines': 4 if big else 3}))
    return out
