"""P01: which extensions a pattern matches."""
from asterisklint.pattern import Pattern
from props import pat

BOUNDS = {
    'quick': 'all ASCII patterns of 1..4 characters against all ASCII '
             'extensions of 0..4 characters; sets with a body of 0..2 '
             'arbitrary or 0..4 of 7 chosen characters; patterns of 1..3 with extensions '
             'of 0..3 characters of the whole BMP (no sets); any 1 or 2 '
             'characters behind six beginnings of up to 80 characters, in '
             'the pattern and in the extension; sets of up to 6 of three '
             'characters, and any 1 character in front of or behind the body '
             'of seven sets of up to 62 characters; a range of any end from eight starts',
    'thorough': 'patterns of 1..5 characters, set bodies of 0..3 and 0..5, '
                '2 characters next to the large sets',
}
OUTSIDE = 'non-ASCII characters inside a set; longer patterns; malformed ' \
    'patterns only have to match nothing from the bad spot on'
COVERS = ('yes', 'no', 'malformed', 'dash')


def verdict(ctx, p, e):
    if p[0] == '_' and pat.malformed(pat.items(p)):
        ctx.cover('malformed')
    want = pat.matches(p, e)
    got = Pattern(p, None).matches_extension(e)
    ctx.cover('yes' if want else 'no')
    if want and '-' in e:
        ctx.cover('dash')
    ctx.observe('got', bool(got))
    ctx.check(bool(got) is want, 'match')


def full(ctx, n, m):
    p = ctx.str('p', n, 'printable:')
    if n:
        p = '_' + p
    verdict(ctx, p, ctx.str('e', m, 'printable:'))


def literal(ctx, n, m, alpha):
    p = ctx.str('p', n, alpha)
    ctx.assume(p[0] != '_')
    verdict(ctx, p, ctx.str('e', m, alpha))


def oneset(ctx, pre, n, post, m, alpha):
    body = ctx.str('s', n, alpha)
    p = '_' + ctx.str('a', pre, 'X-') + '[' + body + ']' + \
        ctx.str('b', post, 'x.!a')
    verdict(ctx, p, ctx.str('e', m, 'printable:'))


# Sets of many characters, or of many pieces.
BODIES = ('0-9a-f', 'A-Za-z0-9', '024-68', '!-Z', 'acegikmoqsuwy', '9-0z-a',
          'a-b--')


def bigset(ctx, body, n, after):
    s = ctx.str('s', n, 'printable:]')
    p = '_[' + (body + s if after else s + body) + ']'
    verdict(ctx, p, ctx.str('e', 1, 'printable:'))


def span(ctx, low, more):
    """A range to any character."""
    verdict(ctx, '_[' + low + '-' + ctx.str('b', 1, 'printable:-]') + more +
            ']', ctx.str('e', 1, 'printable:'))


def wide(ctx, n, m):
    p = '_' + ctx.str('p', n, 'bmp:-[]')
    verdict(ctx, p, ctx.str('e', m, 'bmp:'))


FAR = (('_' + 'X' * 40, '7' * 40), ('5' * 40, '5' * 40),
       ('_' + '[1-3]9-' * 10, '29-' * 10), ('a-b.c' * 12, 'a-b.c' * 12),
       ('_a' + 'ZN' * 8, 'a' + '19' * 8), ('_' + 'b' * 80, 'b' * 80))


def far(ctx, which, n, m, tail):
    p, e = FAR[which]
    p = p + ctx.str('p', n, 'printable:') + tail
    verdict(ctx, p, e + ctx.str('e', m, 'printable:'))


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 5 if big else 4):
        for m in range(0, 5 if big else 5):
            out.append(('full%d-%d' % (n, m), full, {'n': n, 'm': m}))
    for n in range(1, 6 if big else 5):
        for m in range(0, 5):
            out.append(('literal%d-%d' % (n, m), literal,
                        {'n': n, 'm': m, 'alpha': 'printable:'}))
    for n in range(0, 6 if big else 5):
        for pre, post, m in ((0, 0, 1), (0, 1, 2), (1, 0, 2)):
            out.append(('set%d-%d%d%d' % (n, pre, post, m), oneset,
                        {'pre': pre, 'n': n, 'post': post, 'm': m,
                         'alpha': '-+/39a['}))
    for which in range(len(FAR)):
        for n in (0, 1, 2):
            for m in (0, 1, 2):
                for tail in ('', '.') if n == m else ('',):
                    out.append(('far%d-%d-%d%s' % (which, n, m, tail), far, {
                        'which': which, 'n': n, 'm': m, 'tail': tail}))
    for n in (5, 6):
        out.append(('pieces%d' % n, oneset,
                    {'pre': 0, 'n': n, 'post': 0, 'm': 1, 'alpha': '-az'}))
    for low in ' !-0A^a~':
        for more in ('', '!', 'a-b'):
            out.append(('span%s%s' % (low, more), span,
                        {'low': low, 'more': more}))
    for body in BODIES:
        for n in range(0, 3 if big else 2):
            for after in (False, True):
                out.append(('big-%s%d%d' % (body, n, after), bigset, {
                    'body': body, 'n': n, 'after': after}))
    for n in range(0, 4 if big else 3):
        out.append(('anyset%d' % n, oneset,
                    {'pre': 0, 'n': n, 'post': 0, 'm': 1,
                     'alpha': 'printable:'}))
    for n in range(1, 4 if big else 3):
        for m in range(0, 4 if big else 3):
            out.append(('wide%d-%d' % (n, m), wide, {'n': n, 'm': m}))
            out.append(('wlit%d-%d' % (n, m), literal,
                        {'n': n, 'm': m, 'alpha': 'bmp:'}))
    return out
