"""F01: comment splitting and backslash unescaping."""
from asterisklint.file import FileReader
from props.common import MemFile, Opener, fresh, raised, count, names

BOUNDS = {
    'quick': 'one line of 0..8 ASCII characters (all 128 values except LF '
             'and CR per position); 3 such characters before or behind up to '
             '5000 others',
    'thorough': 'one line of 0..11 ASCII characters (all 128 values except '
                'LF and CR per position)',
}
OUTSIDE = 'longer lines; non-ASCII text (decoding is F03)'
ASSUMPTIONS = ['the line ends in a single LF']
COVERS = ('comment', 'nocomment', 'escaped', 'wsh_comment', 'wsh_eol')


def spec(line):
    """-> data, comment, missing_ws; written from Asterisk's rule: a
    semicolon starts a comment unless the character before it is a
    backslash, in which case both become a semicolon."""
    n = len(line)
    while n and line[n - 1] in ' \t':
        n -= 1
    data = []
    comment = None
    for i in range(n):
        if line[i] == ';':
            if i and line[i - 1] == '\\':
                data[-1] = ';'
                continue
            comment = i
            break
        data.append(line[i])
    missing = False
    if comment is not None and comment and line[comment - 1] not in ' \t':
        missing = True
    k = len(data)
    while k and data[k - 1] in ' \t':
        k -= 1
    text = ''.join(data)
    rest = text[k:] + (line[comment:n] if comment is not None else '')
    return text[:k], rest, missing, n != len(line), comment is not None, \
        len(data) + (0 if comment is None else n - comment) != n


FILL = ('a', ' ', 'a \\;', 'a b')


def far(ctx, size, fill, last):
    text = FILL[fill] * (size // len(FILL[fill]))
    s = ctx.str('line', 3, 'ascii:-\n\r')
    judge(ctx, text + s if last else s + text)


def line(ctx, n):
    judge(ctx, ctx.str('line', n, 'ascii:-\n\r'))


def judge(ctx, s):
    fresh()
    reader = FileReader(opener=Opener(
        [('a.conf', [(s + '\n').encode('ascii')])]))
    reader.include('a.conf')
    got = list(reader)
    ctx.check(len(got) == 1, 'one line in, one line out')
    where, data, comment = got[0]
    xdata, xcomment, missing, eol, hascomment, escaped = spec(s)
    ctx.cover('comment' if hascomment else 'nocomment')
    if escaped:
        ctx.cover('escaped')
    if missing:
        ctx.cover('wsh_comment')
    if eol:
        ctx.cover('wsh_eol')
    ctx.check(data == xdata, 'data before the comment', (data, xdata))
    ctx.check(bool(comment) == bool(xcomment), 'comment presence',
              (comment, xcomment))
    ctx.check(comment == xcomment, 'comment text', (comment, xcomment))
    ctx.check(count('W_WSH_COMMENT') == (1 if missing else 0),
              'whitespace-before-comment warning', names())
    ctx.check(count('W_WSH_EOL') == (1 if eol else 0),
              'trailing whitespace warning', names())
    ctx.check(where.filename == 'a.conf' and where.lineno == 1, 'position')
    ctx.observe('got', (data, comment, names()))


def jobs(tier):
    out = [('line%d' % n, line, {'n': n})
           for n in range(0, 9 if tier == 'quick' else 12)]
    for size in (60, 1000, 5000):
        for fill in range(len(FILL)):
            for last in (False, True):
                out.append(('far-%d-%d-%d' % (size, fill, last), far, {
                    'size': size, 'fill': fill, 'last': last}))
    return out
