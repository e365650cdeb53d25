"""P03: patterns sort as Asterisk tries them; equality is consistent."""
from asterisklint.pattern import Pattern
from props import pat

BOUNDS = {
    'quick': 'pairs of names and patterns of 1..2 arbitrary ASCII characters '
             '(underscore not counted); pairs of one-set patterns with set '
             'bodies of 1..3 of 6 chosen characters (4 together); sets between '
             'letters; pairs that agree in up to 255 characters and end in up to 2 '
             'of 6',
    'thorough': 'pairs of up to 3 characters; set bodies of up to 5 together',
}
OUTSIDE = 'malformed patterns'
COVERS = ('lt', 'gt', 'eq', 'name first')


def chars(it):
    out = []
    for c in range(32, 127):
        if pat.inset(it[1], chr(c)):
            out.append(c)
    return out


def key(p, rich):
    """What the order is documented to be: names before patterns, then item
    by item: fewest characters first, then the smallest character; then '.',
    '!' and the end."""
    out = [0 if p[0] != '_' else 1]
    for it in pat.items(p):
        if it[0] == 'c':
            out.append((1, ord(it[1]), []))
        elif it[0] == 'r':
            cs = chars(it)
            gaps = [] if cs[-1] - cs[0] == len(cs) - 1 else cs
            out.append((len(cs), cs[0], gaps))
        elif it[0] == '.':
            out.append((1000, 0, []))
        elif it[0] == '!':
            out.append((2000, 0, []))
        else:
            out.append((4000, 0, []))
    if out[0] and (len(out) == 1 or out[-1][0] != 4000):
        out.append((3000, 0, []))
    return out


def compare(a, b):
    if a[0] != b[0]:
        return -1 if a[0] < b[0] else 1
    for x, y in zip(a[1:], b[1:]):
        for u, v in zip(x, y):
            if u != v:
                return -1 if u < v else 1
    if len(a) != len(b):
        return -1 if len(a) < len(b) else 1
    return 0


def verdict(ctx, p, q):
    a, b = Pattern(p, None), Pattern(q, None)
    want = compare(key(p, True), key(q, True))
    lt, gt = bool(a < b), bool(b < a)
    eq = bool(a == b)
    ctx.observe('order', [lt, gt, eq])
    ctx.cover('lt' if want < 0 else 'gt' if want > 0 else 'eq')
    if (p[0] == '_') != (q[0] == '_'):
        ctx.cover('name first')
    ctx.check(lt is (want < 0), 'less than')
    ctx.check(gt is (want > 0), 'greater than')
    ctx.check(eq is (want == 0), 'equal')
    ctx.check(bool(a <= b) is (want <= 0), 'less or equal')
    ctx.check(bool(a != b) is (want != 0), 'not equal')
    if eq:
        ctx.check(bool(hash(a) == hash(b)), 'hash')
    # ignoring whether it is a pattern
    same = compare([0] + [i for i in key(p, True)[1:] if i[0] != 3000],
                   [0] + [i for i in key(q, True)[1:] if i[0] != 3000]) == 0
    ctx.check(bool(a.matches_same(b)) is same, 'same but for the underscore')
    ctx.check(bool(b.matches_same(a)) is same, 'symmetric')


def pair(ctx, n, m, u, v, alpha):
    p = ctx.str('p', n, alpha)
    q = ctx.str('q', m, alpha)
    if not u:
        ctx.assume(p[0] != '_')
    if not v:
        ctx.assume(q[0] != '_')
    p, q = u + p, v + q
    ctx.assume(u == '' or not pat.malformed(pat.items(p)))
    ctx.assume(v == '' or not pat.malformed(pat.items(q)))
    verdict(ctx, p, q)


def sets(ctx, n, m):
    p = '_[' + ctx.str('p', n, '-0159a') + ']'
    q = '_[' + ctx.str('q', m, '-0159a') + ']'
    verdict(ctx, p, q)


def classes(ctx, n, m):
    p = '_' + ctx.str('p', 1, 'XZNxzn') + '[' + ctx.str('s', n, '-0129') + ']'
    q = '_[' + ctx.str('q', m, '-0129') + ']' + ctx.str('r', 1, 'XZN.!')
    verdict(ctx, p, q)


def long(ctx, n, m):
    """They differ far behind only."""
    fill = '1' * ctx.choice('fill', [15, 31, 79, 255])
    u, v = ctx.choice('kinds', [('', ''), ('_', '_'), ('_', '')])
    p = u + fill + ctx.str('p', n, '12XZ.!')
    q = v + fill + ctx.str('q', m, '12XZ.!')
    verdict(ctx, p, q)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in (0, 1, 2):
        for m in (0, 1, 2):
            out.append(('long%d%d' % (n, m), long, {'n': n, 'm': m}))
    top = 3 if big else 2
    for n in range(1, top + 1):
        for m in range(1, top + 1):
            for u in ('', '_'):
                for v in ('', '_'):
                    if n + m < 6 and (n + m < 5 or not (u and v)):
                        out.append(('pair%s%d%s%d' % (u, n, v, m), pair, {
                            'n': n, 'm': m, 'u': u, 'v': v,
                            'alpha': 'printable:[' if not (u or v) else
                            'printable:-['}))
    for n in range(1, 4):
        for m in range(1, 4):
            if n + m < (6 if big else 5):
                out.append(('sets%d%d' % (n, m), sets, {'n': n, 'm': m}))
    for n in (1, 3):
        for m in (1, 3):
            if n + m < (6 if big else 5):
                out.append(('classes%d%d' % (n, m), classes,
                            {'n': n, 'm': m}))
    return out
