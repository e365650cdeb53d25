"""P02: the canonical form is the same pattern, and is a fixed point."""
from asterisklint.pattern import Pattern
from props import pat

BOUNDS = {
    'quick': 'all ASCII patterns of 1..3 characters after the underscore '
             '(1..4 without); a set of 1..4 of 9 or 3 of 16 chosen '
             'characters or 1..2 of all printable ones, with a literal before and after; '
             'literals of 1..3 characters of the whole BMP; 2 characters '
             'behind or before six others of up to 100; 1 next to the body '
             'of nine sets of up to 62 characters; compared on '
             'every one-character (sets) or parsed item; a range of any end from eight starts',
    'thorough': 'one character more',
}
OUTSIDE = 'malformed patterns; patterns that are empty once dashes are ' \
    'removed; non-ASCII inside sets; exact names that begin with dashes ' \
    'followed by an underscore, or hold both dashes and brackets'
COVERS = ('canonical', 'other', 'set')


def undash(p):
    """Drop the dashes that are not in a [set]."""
    out = ''
    inside = False
    i = 0
    while i < len(p):
        if p[i] == '[' and not inside:
            inside = True
            out += p[i]
            i += 1
            if i < len(p):
                out += p[i]
                i += 1
            continue
        if p[i] == ']':
            inside = False
        if inside or p[i] != '-':
            out += p[i]
        i += 1
    return out


def brackets(p):
    """Brackets only as sets with a body."""
    i = 0
    while i < len(p):
        if p[i] == ']':
            return False
        if p[i] == '[':
            end = p.find(']', i + 1)
            if end < 0 or end == i + 1:
                return False
            i = end
        i += 1
    return True


def same_item(ctx, a, b):
    """Do two items accept the same characters?"""
    if a[0] in '.!' or b[0] in '.!':
        return a[0] == b[0]
    for c in range(33, 127):
        if c != 45 and pat.item(a, chr(c)) != pat.item(b, chr(c)):
            return False
    return True


def verdict(ctx, p, rich):
    its = pat.items(p)
    ctx.assume(len(its) > 0 and not pat.malformed(its))
    if p[0] != '_':
        ctx.assume(p.replace('-', '')[:1] != '_')
        ctx.assume('[' not in p or '-' not in p)
    pattern = Pattern(p, None)
    canon = pattern.canonical_pattern
    ctx.observe('canon', canon)
    second = Pattern(canon, None)
    ctx.check(second.canonical_pattern == canon, 'fixed point')
    ctx.check(bool(second.is_canonical) is True, 'recognised as canonical')
    is_canon = bool(pattern.is_canonical)
    ctx.check(is_canon is (undash(p) == canon),
              'canonical unless written differently')
    ctx.cover('canonical' if is_canon else 'other')
    other = pat.items(canon)
    if rich:
        ctx.check(len(its) == len(other), 'same length')
        for a, b in zip(its, other):
            ctx.check(same_item(ctx, a, b), 'same set')
    ctx.check(bool(pattern.matches_same(second)) is True, 'same pattern')


def full(ctx, n):
    p = '_' + ctx.str('p', n, 'printable:- ')
    verdict(ctx, p, False)


def probe(ctx, n):
    """The same extension is matched by both."""
    p = '_' + ctx.str('p', n, 'printable:- ')
    ctx.assume(brackets(p))
    ctx.assume(len(pat.items(p)) > 0)
    canon = Pattern(p, None).canonical_pattern
    e = ctx.str('e', n, 'printable:- ')
    ctx.check(pat.matches(p, e) == pat.matches(canon, e), 'same extensions')


def literal(ctx, n, alpha):
    verdict(ctx, ctx.str('p', n, alpha), False)


def oneset(ctx, pre, n, post, alpha):
    ctx.cover('set')
    p = '_' + ctx.str('a', pre, 'ax-_') + '[' + ctx.str('s', n, alpha) + \
        ']' + ctx.str('b', post, 'Z.[')
    verdict(ctx, p, True)


BODIES = ('0-9a-f', 'A-Za-z0-9', '024-68', '!-Z', '9-0z-a', '-@-~', 'X-Z',
          '1-9', '2-8')


def bigset(ctx, body, n, after):
    s = ctx.str('s', n, 'printable:-]')
    verdict(ctx, '_[' + (body + s if after else s + body) + ']', True)


def span(ctx, low, more):
    """A range to any character."""
    verdict(ctx, '_[' + low + '-' + ctx.str('b', 1, 'printable:-]') + more +
            ']', True)


FAR = ('X' * 40, '[1-3][3-1]' * 5, 'a-b.c' * 12, '[a-cf-h]x' * 8, 'b' * 100,
       '[0-9]' * 10)


def far(ctx, which, last):
    s = ctx.str('p', 2, 'printable:- ')
    p = FAR[which] + s if last else s + FAR[which]
    ctx.assume(brackets(p))
    verdict(ctx, '_' + p, True)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 5 if big else 4):
        out.append(('full%d' % n, full, {'n': n}))
    for n in range(1, 4 if big else 3):
        out.append(('probe%d' % n, probe, {'n': n}))
    for n in range(1, 6 if big else 5):
        out.append(('literal%d' % n, literal, {'n': n,
                                               'alpha': 'printable:- '}))
    for n in range(1, 4 if big else 3):
        out.append(('wide%d' % n, literal, {
            'n': n, 'alpha': ((33, 90), (92, 92), (94, 0xd7ff),
                              (0xe000, 0xffff))}))
    for n in range(1, 6 if big else 5):
        out.append(('set%d' % n, oneset, {
            'pre': 0, 'n': n, 'post': 0,
            'alpha': '-029A^\\[X' if n < 5 else '-1239'}))
    for n in range(1, 4 if big else 3):
        out.append(('mixset%d' % n, oneset, {
            'pre': 1, 'n': n, 'post': 1, 'alpha': '-029A^\\'}))
    for n in range(1, 3):
        out.append(('followed%d' % n, oneset, {
            'pre': 0, 'n': n, 'post': 1,
            'alpha': 'printable:-]' if n == 1 else '-!.09NXZanxz[\\'}))
    for which in range(len(FAR)):
        for last in (False, True):
            out.append(('far%d%d' % (which, last), far,
                        {'which': which, 'last': last}))
    for low in ' !-0A^a~':
        for more in ('', '!', 'a-b'):
            out.append(('span%s%s' % (low, more), span,
                        {'low': low, 'more': more}))
    for body in BODIES:
        for n in range(0, 2):
            for after in (False, True):
                out.append(('big-%s%d%d' % (body, n, after), bigset, {
                    'body': body, 'n': n, 'after': after}))
    for n in range(1, 3):
        out.append(('anyset%d' % n, oneset, {
            'pre': 0, 'n': n, 'post': 0, 'alpha': 'printable:-]'}))
    out.append(('anyset3', oneset, {
        'pre': 0, 'n': 3, 'post': 0,
        'alpha': '-!,./09@A[\\^_`a{' if not big else
        '-!,./019:@AYZ[\\^_`az{~'}))
    return out
