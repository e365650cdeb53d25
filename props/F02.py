"""F02: line endings, per file."""
from asterisklint.file import FileReader
from props.common import Opener, fresh, names, lines_of, msgs

BOUNDS = {
    'quick': 'one file of 0..7 bytes over {LF, CR, any other printable '
             'character}; a main file of 1..4 lines with one or two '
             'includes (sequential or nested, 0..2 lines each), every line '
             'with any of the endings LF, CRLF or, at end of file, none; 12 '
             'lines of which any two differ; chains of 6 files',
    'thorough': 'the same with 0..10 bytes and up to 5 lines in the main '
                'file',
}
OUTSIDE = 'files that include themselves; longer files and chains'
COVERS = ('dos', 'unix', 'EOFCRLF', 'BARELF', 'CRLF', 'NOLF')
NAMES = ('W_FILE_DOS_EOFCRLF', 'W_FILE_DOS_BARELF', 'W_FILE_UNIX_CRLF',
         'W_FILE_UNIX_NOLF')


def spec(endings):
    """endings: list of 'lf'/'crlf'/'' -> {message: [line numbers]}"""
    out = {}
    for n in NAMES:
        out[n] = []
    if not endings:
        return out
    unix = endings[0] == 'lf'
    for i, e in enumerate(endings):
        if unix and e == 'crlf':
            out['W_FILE_UNIX_CRLF'].append(i + 1)
        if not unix and e == 'lf':
            out['W_FILE_DOS_BARELF'].append(i + 1)
    if unix and endings[-1] == '':
        out['W_FILE_UNIX_NOLF'].append(len(endings))
    if not unix and endings[-1] != '':
        out['W_FILE_DOS_EOFCRLF'].append(len(endings))
    return out


def split(data, n):
    """bytes -> lines as a binary file yields them (forks)."""
    lines = []
    start = 0
    for i in range(n):
        if data[i:i + 1] == b'\n':
            lines.append(data[start:i + 1])
            start = i + 1
    if start < n:
        lines.append(data[start:])
    return lines


def ending(line):
    if line.endswith(b'\r\n'):
        return 'crlf', line[:-2]
    if line.endswith(b'\n'):
        return 'lf', line[:-1]
    return '', line


def compare(ctx, files):
    """files: [(name, endings)]"""
    for n in NAMES:
        want = []
        for fn, ends in files:
            for no in spec(ends)[n]:
                want.append((fn, no))
        got = [(m.where.filename, m.where.lineno) for m in msgs(n)]
        ctx.check(sorted(got) == sorted(want), n, (got, want))
        if want:
            ctx.cover(n.rsplit('_', 1)[1])


def single(ctx, n):
    fresh()
    data = ctx.bytes('data', n, '\r\nA')
    lines = split(data, n)
    reader = FileReader(opener=Opener([('a.conf', lines)]))
    reader.include('a.conf')
    got = list(reader)
    ctx.check(len(got) == len(lines), 'no line is lost')
    ends = []
    for i, (where, text, comment) in enumerate(got):
        e, body = ending(lines[i])
        ends.append(e)
        ctx.check(text == body.decode('ascii'), 'line without its ending',
                  (text, body))
        ctx.check(where.lineno == i + 1, 'line number')
        ctx.check(where.filename == 'a.conf', 'file name')
    if ends:
        ctx.cover('unix' if ends[0] == 'lf' else 'dos')
    compare(ctx, [('a.conf', ends)])
    ctx.observe('names', names())


TERM = {'lf': b'\n', 'crlf': b'\r\n', '': b''}


def mkfile(ctx, name, n, marks):
    """n lines; marks: {line: text}"""
    lines, ends = [], []
    for i in range(n):
        opts = ['lf', 'crlf'] + ([''] if i == n - 1 else [])
        e = ctx.choice('%s%d' % (name, i), opts)
        ends.append(e)
        lines.append(marks.get(i, b'text') + TERM[e])
    return lines, ends


def tree(ctx, nmain, pos, nb, nested, pos2, nc):
    """main includes b after line pos; c is included from b (nested) or
    from main after line pos2."""
    fresh()
    marks = {pos: b'include-b'}
    bmarks = {}
    if nested:
        bmarks[pos2] = b'include-c'
    elif pos2 is not None:
        marks[pos2] = b'include-c'
    la, ea = mkfile(ctx, 'a', nmain, marks)
    lb, eb = mkfile(ctx, 'b', nb, bmarks)
    lc, ec = mkfile(ctx, 'c', nc, {})
    reader = FileReader(opener=Opener([('a', la), ('b', lb), ('c', lc)]))
    reader.include('a')
    seen = []
    for where, text, comment in reader:
        seen.append((where.filename, where.lineno))
        if text.startswith('include-'):
            reader.include(text[8:])
    files = [('a', ea), ('b', eb)]
    if pos2 is not None:
        files.append(('c', ec))
    compare(ctx, files)
    ctx.observe('seen', seen)
    ctx.observe('names', names())


def many(ctx, n):
    fresh()
    first = ctx.choice('first', ['lf', 'crlf'])
    ends = [first] * n
    for k in (0, 1):
        at = ctx.choice('at%d' % k, list(range(n)))
        if at == n - 1:
            ends[at] = ctx.choice('end%d' % k, ['lf', 'crlf', ''])
        else:
            ends[at] = ctx.choice('end%d' % k, ['lf', 'crlf'])
    reader = FileReader(opener=Opener([
        ('a', [b'x' * i + TERM[e] for i, e in enumerate(ends)])]))
    reader.include('a')
    got = [text for where, text, comment in reader]
    ctx.check(got == ['x' * i for i in range(n)], 'lines', got)
    compare(ctx, [('a', ends)])


def chain(ctx, n, back=None):
    """Each file includes the next one, and has a line behind that; back:
    only the first `back` files have."""
    fresh()
    files = []
    for i in range(n):
        e = ctx.choice('f%d' % i, [
            ('lf', 'lf'), ('crlf', 'crlf'), ('lf', ''), ('crlf', 'lf'),
            ('crlf', '')] if i in (0, n - 1) else
            [('lf', 'crlf'), ('crlf', '')])
        lines = [b'include-f%d' % (i + 1) + TERM[e[0]], b'x' + TERM[e[1]]]
        e = list(e)
        if back is not None and i >= back:
            lines.pop()
            e.pop()
        files.append(('f%d' % i, lines, e))
    files.append(('f%d' % n, [b'x\n'], ['lf']))
    reader = FileReader(opener=Opener([f[0:2] for f in files]))
    reader.include('f0')
    for where, text, comment in reader:
        if text.startswith('include-'):
            reader.include(text[8:])
    compare(ctx, [(f[0], f[2]) for f in files])


def jobs(tier):
    out = []
    for n in range(0, 8 if tier == 'quick' else 11):
        out.append(('single%d' % n, single, {'n': n}))
    out.append(('many', many, {'n': 12}))
    out.append(('chain', chain, {'n': 5}))
    for n in (4, 6):
        for back in (0, 1, 2):
            out.append(('back%d-%d' % (n, back), chain,
                        {'n': n, 'back': back}))
    top = 4 if tier == 'quick' else 5
    for nmain in range(1, top + 1):
        for pos in range(nmain):
            for nb in (0, 1, 2):
                out.append(('tree-%d-%d-%d' % (nmain, pos, nb), tree, {
                    'nmain': nmain, 'pos': pos, 'nb': nb, 'nested': False,
                    'pos2': None, 'nc': 0}))
    for nmain in range(1, 4):
        for pos in range(nmain):
            for nb in (1, 2):
                for pos2 in range(nb):
                    for nc in (0, 1, 2):
                        out.append(('nested-%d-%d-%d-%d-%d' % (
                            nmain, pos, nb, pos2, nc), tree, {
                                'nmain': nmain, 'pos': pos, 'nb': nb,
                                'nested': True, 'pos2': pos2, 'nc': nc}))
            for pos2 in range(pos + 1, nmain):
                for nb in (0, 1, 2):
                    for nc in (1, 2):
                        out.append(('seq-%d-%d-%d-%d-%d' % (
                            nmain, pos, nb, pos2, nc), tree, {
                                'nmain': nmain, 'pos': pos, 'nb': nb,
                                'nested': False, 'pos2': pos2, 'nc': nc}))
    return out
