"""R02: whatever func_odbc.conf and other configuration files hold, they are
read to the end."""
from asterisklint import FileConfigParser
from props.common import MemFile, fresh, msgs, names
from props import O01

BOUNDS = {
    'quick': 'any line of up to 2 bytes and of up to 4 characters out of '
             'sixteen, at the start, in a function and between two lines; '
             'any name of a function of up to 3 bytes; any value of each '
             'key of up to 4 characters out of ten; the same lines read as '
             'any other configuration',
    'thorough': 'lines of up to 3 bytes, 5 characters; names of 4 bytes',
}
OUTSIDE = 'longer lines'
COVERS = ('quiet', 'said', 'registered', 'config')
BEFORE = [[], [b'[A]\n'], [b'[A]\n', b'readsql=x\n']]


def config(lines):
    fresh()

    def opener(path):
        return MemFile(path, lines)
    parser = FileConfigParser(opener=opener)
    parser.include('f')
    return [c for c in parser]


def judge(ctx, lines, read):
    got = read(lines)
    if read is config:
        ctx.cover('config')
    else:
        for f in got:
            f.get_queries()
            ctx.check(f.get_function_name()[-1 - len(f.name):] ==
                      '_' + f.name, 'name')
            if f.has_variable('readsql'):
                ctx.cover('registered')
    said = names()
    ctx.cover('said' if said else 'quiet')
    for name in said:
        for m in msgs(name):
            w = m.where
            ctx.check(w.filename == 'f' and 1 <= w.lineno and
                      w.lineno <= len(lines) and
                      lines[w.lineno - 1] == w.line, 'place', name)
    ctx.observe('said', said)


def line(ctx, n, before, alpha, tail, after, read):
    text = ctx.bytes('text', n, alpha)
    judge(ctx, BEFORE[before] + [text + tail] + after, read)


def named(ctx, n):
    name = ctx.bytes('name', n, 'byte:')
    judge(ctx, [b'[' + name + b']\n', b'readsql=x\n'], O01.load)


def valued(ctx, key, n):
    value = ctx.str('value', n, 'aA;\\ ="\'$,')
    judge(ctx, [b'[A]\n', (key + '=' + value + '\n').encode('ascii'),
                b'writesql=x\n'], O01.load)


def jobs(tier):
    big = tier != 'quick'
    more = 1 if big else 0
    out = []
    for b in range(len(BEFORE)):
        for r, read in enumerate((O01.load, config)):
            for n in range(0, 3 + more):
                out.append(('bytes%d-%d-%d' % (n, b, r), line, {
                    'n': n, 'before': b, 'alpha': 'byte:', 'tail': b'',
                    'after': [], 'read': read}))
            for n in range(1, 5 + more):
                out.append(('line%d-%d-%d' % (n, b, r), line, {
                    'n': n, 'before': b, 'alpha': 'aA[]=>;\\,#( \t\r+<',
                    'tail': b'\n', 'after': [b'readsql=y\n'],
                    'read': read}))
    for n in range(0, 4 + more):
        out.append(('named%d' % n, named, {'n': n}))
    for key in O01.KNOWN:
        for n in range(0, 5 + more):
            out.append(('%s%d' % (key, n), valued, {'key': key, 'n': n}))
    return out
