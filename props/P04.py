"""P04: the example of a pattern is an extension that the pattern matches."""
from asterisklint.pattern import Pattern
from props import pat

BOUNDS = {
    'quick': 'all ASCII names of 1..5 and patterns of 0..3 characters; sets '
             'of 1..4 of 8 chosen or 1..2 arbitrary characters with a literal '
             'on both sides; 1..3 characters of the whole BMP outside sets; '
             'any 2 characters behind six beginnings of up to 80 characters; '
             'any 1 character next to the body of seven sets of up to 80 '
             'characters; a range of any end from eight starts',
    'thorough': 'one character more',
}
OUTSIDE = 'malformed patterns; sets of dashes only; non-ASCII inside sets'
COVERS = ('name', 'pattern', 'dots')


def verdict(ctx, p):
    its = pat.items(p)
    ctx.assume(not pat.malformed(its))
    for it in its:
        ctx.assume(not pat.empty_item(it))
        ctx.assume(it[0] != 'c' or it[1] != '-')
    ctx.cover('pattern' if p[0] == '_' else 'name')
    if p[-1] in '.!':
        ctx.cover('dots')
    pattern = Pattern(p, None)
    e = pattern.example
    ctx.observe('example', e)
    ctx.check(pat.matches(p, e), 'example matches the pattern')
    ctx.check(bool(pattern.matches_extension(e)), 'and is said to match')


def full(ctx, n, u, alpha):
    p = ctx.str('p', n, alpha)
    if not u:
        ctx.assume(p[0] != '_')
    verdict(ctx, u + p)


def oneset(ctx, n, pre, post, alpha):
    verdict(ctx, '_' + ctx.str('a', pre, 'X[-1') + '[' +
            ctx.str('s', n, alpha) + ']' + ctx.str('b', post, 'z.!'))


BODIES = ('0-9a-f', 'A-Za-z0-9', '024-68', '!-Z', '+-z', '9-0z-a', '-@-~')


def bigset(ctx, body, n, after):
    s = ctx.str('s', n, 'printable:-]')
    verdict(ctx, '_[' + (body + s if after else s + body) + ']' +
            ctx.choice('tail', ['', '.', 'X']))


def span(ctx, low, more):
    """A range to any character."""
    verdict(ctx, '_[' + low + '-' + ctx.str('b', 1, 'printable:-]') + more +
            ']')


FAR = ('_' + 'X' * 40, '5' * 40, '_' + '[1-3]9-' * 10, 'a-b.c' * 12,
       '_a' + 'ZN' * 8, '_' + 'b' * 80)


def far(ctx, which, tail):
    verdict(ctx, FAR[which] + ctx.str('p', 2, 'printable:') + tail)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 5 if big else 4):
        out.append(('full%d' % n, full,
                    {'n': n, 'u': '_', 'alpha': 'printable:'}))
    for n in range(1, 7 if big else 6):
        out.append(('name%d' % n, full,
                    {'n': n, 'u': '', 'alpha': 'printable:'}))
    for n in range(1, 5 if big else 4):
        out.append(('wide%d' % n, full,
                    {'n': n, 'u': '_', 'alpha': 'bmp:-[]'}))
    for n in range(1, 4 if big else 3):
        out.append(('wname%d' % n, full,
                    {'n': n, 'u': '', 'alpha': 'bmp:'}))
    for n in range(1, 6 if big else 5):
        out.append(('set%d' % n, oneset, {
            'n': n, 'pre': 0, 'post': 0,
            'alpha': '-+,./09a' if n < 5 else '-+./0'}))
    for which in range(len(FAR)):
        for tail in ('', '.', 'XX'):
            out.append(('far%d%s' % (which, tail), far,
                        {'which': which, 'tail': tail}))
    for low in ' !-0A^a~':
        for more in ('', '!', 'a-b'):
            out.append(('span%s%s' % (low, more), span,
                        {'low': low, 'more': more}))
    for body in BODIES:
        for n in range(0, 3 if big else 2):
            for after in (False, True):
                out.append(('big-%s%d%d' % (body, n, after), bigset, {
                    'body': body, 'n': n, 'after': after}))
    for n in range(1, 3):
        out.append(('anyset%d' % n, oneset, {
            'n': n, 'pre': 0, 'post': 0, 'alpha': 'printable:-]'}))
        out.append(('mixset%d' % n, oneset, {
            'n': n, 'pre': 1, 'post': 1, 'alpha': '-+,./09a'}))
    return out
