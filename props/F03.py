"""F03: decoding and control characters."""
from asterisklint.file import FileReader
from props.common import Opener, fresh, names, count, msgs

BOUNDS = {
    'quick': 'every byte string of 0..4 bytes without LF as one line '
             '(all 255 other byte values per position); 3 of them before '
             'or behind 60 others, 2 behind 1000; any of six kinds in each '
             'of four lines, of one file or two',
    'thorough': 'every byte string of 0..5 bytes without LF as one line',
}
OUTSIDE = 'longer lines with more than 3 arbitrary bytes; the text chosen for bytes that are not UTF-8'
COVERS = ('ascii', 'two', 'three', 'four', 'bad', 'ctrl')


def utf8(b, n, cover):
    """Code points of n bytes by RFC 3629, or None."""
    out = []
    i = 0
    while i < n:
        c = b[i]
        if c < 0x80:
            out.append(c)
            i += 1
            cover('ascii')
            continue
        if 0xc2 <= c <= 0xdf:
            k, v = 1, c - 0xc0
        elif 0xe0 <= c <= 0xef:
            k, v = 2, c - 0xe0
        elif 0xf0 <= c <= 0xf4:
            k, v = 3, c - 0xf0
        else:
            return None
        if i + k >= n:
            return None
        for j in range(1, k + 1):
            d = b[i + j]
            if not 0x80 <= d <= 0xbf:
                return None
            v = v * 64 + (d - 0x80)
        if k == 2 and (v < 0x800 or 0xd800 <= v <= 0xdfff):
            return None
        if k == 3 and not 0x10000 <= v <= 0x10ffff:
            return None
        out.append(v)
        cover(('two', 'three', 'four')[k - 1])
        i += k + 1
    return out


FILL = ('a', '\u20ac', '\xe9a')


def far(ctx, size, fill, last, n):
    text = (FILL[fill] * (size // len(FILL[fill]))).encode('utf-8')
    data = ctx.bytes('data', n, 'nolf:')
    judge(ctx, text + data if last else data + text, data, FILL[fill],
          size // len(FILL[fill]), last)


def pair(ctx, two):
    """One line says nothing about another one."""
    fresh()
    kinds = [(b'\x81', None), (b'\xe9t\xe9', None), (b'\xc3\xa9', '\xe9'),
             (b'a', 'a'), (b'\xe2\x82\xac', '\u20ac'), (b'\xe2\x82', None)]
    lines = []
    want = []
    for i in range(4):
        raw, text = ctx.choice('line%d' % i, kinds)
        lines.append(raw)
        want.append(text)
    if two:
        files = [('a.conf', [lines[0] + b'\n', b'include\n',
                             lines[3] + b'\n']),
                 ('b.conf', [lines[1] + b'\n', lines[2] + b'\n'])]
        at = [('a.conf', 1), ('b.conf', 1), ('b.conf', 2), ('a.conf', 3)]
    else:
        files = [('a.conf', [x + b'\n' for x in lines])]
        at = [('a.conf', i) for i in range(1, 5)]
    reader = FileReader(opener=Opener(files))
    reader.include('a.conf')
    got = []
    for where, text, comment in reader:
        if text == 'include':
            reader.include('b.conf')
        else:
            got.append((where.filename, where.lineno, text))
    ctx.check([g[0:2] for g in got] == at, 'lines', got)
    for g, text in zip(got, want):
        if text is not None:
            ctx.check(g[2] == text, 'text', (g, text))
    said = [(m.where.filename, m.where.lineno)
            for m in msgs('E_FILE_UTF8_BAD')]
    ctx.check(said == [a for a, t in zip(at, want) if t is None],
              'messages', said)


def line(ctx, n):
    data = ctx.bytes('data', n, 'nolf:')
    judge(ctx, data, data, '', 0, True)


def judge(ctx, whole, data, fill, times, last):
    n = len(data)
    fresh()
    raw = whole + b'\n'
    reader = FileReader(opener=Opener([('a.conf', [raw, b'next\n'])]))
    reader.include('a.conf')
    got = list(reader)
    ctx.check(len(got) == 2, 'reading continues')
    ctx.check(got[1][1] == 'next', 'next line')
    ctx.check(got[0][0].lineno == 1, 'first position')
    ctx.check(got[1][0].lineno == 2, 'second position')
    points = utf8(data, n, ctx.cover)
    if points is None:
        ctx.cover('bad')
        ctx.check(count('E_FILE_UTF8_BAD') == 1, 'bad UTF-8 is reported',
                  names())
    else:
        ctx.check(count('E_FILE_UTF8_BAD') == 0,
                  'valid UTF-8 is not reported', names())
        text = ''.join([chr(p) for p in points])
        text = fill * times + text if last else text + fill * times
        # comments, blanks and line ending are other properties
        if ';' not in text and '\\' not in text:
            if text.endswith('\r'):
                text = text[:-1]
            ctx.check(got[0][1] == text.rstrip(' \t'), 'decoded text',
                      (got[0][1], text))
    ctrl = False
    for i in range(n):
        if data[i] < 32 and data[i] not in (9, 10, 13):
            ctrl = True
    if ctrl:
        ctx.cover('ctrl')
    ctx.check(count('W_FILE_CTRL_CHAR') == (1 if ctrl else 0),
              'control character warning', names())
    ctx.observe('names', names())
    ctx.observe('got', got[0][1])


def jobs(tier):
    out = [('line%d' % n, line, {'n': n})
           for n in range(0, 5 if tier == 'quick' else 6)]
    for size in (60, 1000):
        for fill in range(len(FILL)):
            for last in (False, True):
                if size > 60 and not last:
                    continue
                out.append(('far-%d-%d-%d' % (size, fill, last), far, {
                    'size': size, 'fill': fill, 'last': last,
                    'n': 3 if size < 100 else 2}))
    for two in (False, True):
        out.append(('pair%d' % two, pair, {'two': two}))
    return out
