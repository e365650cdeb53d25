"""A02: splitting of arguments."""
from asterisklint.app.base import AppBase
from asterisklint.variable import Var
from props import dp, app
from props.common import fresh

BOUNDS = {
    'quick': 'any text of 0..5 characters out of nine (comma; up to 4 for '
             'the other two delimiters), standard and raw; any 2 characters, ASCII, before and after a '
             'comma; texts of up to three characters before, between and '
             'after two variables; three characters behind and before 30 '
             'arguments, 14 nested parentheses or 14 variables',
    'thorough': 'any text of up to 6 characters (comma), 5 (others)',
}
OUTSIDE = 'longer text; a backslash at the end'
COVERS = ('quoted', 'escaped', 'parens', 'brackets', 'split', 'variable')
setup = dp.warm


def judge(ctx, data, delim, remove):
    fresh()
    got = AppBase.separate_args(
        data, delimiter=delim, remove_quotes_backslashes=remove)
    want = app.separate(data, delim, remove)
    shown = [str(g) for g in got]
    ctx.observe('got', shown)
    ctx.check(len(got) == len(want), 'count', (shown, want))
    for g, w in zip(got, want):
        ctx.check(str(g) == ''.join(str(c) for c in w), 'argument',
                  (str(g), len(w)))
        n = len([c for c in w if not isinstance(c, str)])
        ctx.check(isinstance(g, str) == (n == 0), 'text or not', str(g))
        # Every variable is still there.
        if n:
            ctx.cover('variable')
            ctx.check(len([c for c in g if not isinstance(c, str)]) == n,
                      'variables')
    if len(want) > 1:
        ctx.cover('split')


def text(ctx, n, alpha, delim, remove, before='', after=''):
    s = before + ctx.str('s', n, alpha) + after
    ctx.assume(s[-1:] != '\\')
    for c, what in (('"', 'quoted'), ('\\', 'escaped'), ('(', 'parens'),
                    ('[', 'brackets')):
        if c in s:
            ctx.cover(what)
    judge(ctx, s, delim, remove)


def mixed(ctx, lens, delim, remove):
    parts = []
    for k, n in enumerate(lens):
        if k:
            parts.append(Var('v%d' % k))
        s = ctx.str('s%d' % k, n, '()",' + delim)
        parts.append(s)
    judge(ctx, Var.join(parts), delim, remove)


def many(ctx, delim, remove, last, what):
    s = ctx.str('s', 3, '()[]"\\a,' + delim)
    ctx.assume(s[-1:] != '\\')
    if what == 'args':
        fill = ('arg' + delim) * 30
    elif what == 'nest':
        fill = '([' * 7 + 'x' + delim + 'y' + '])' * 7
    else:
        fill = Var.join(sum([[Var('v%d' % i), delim + ' '] for i in range(14)],
                            []))
    judge(ctx, Var.join([fill, s] if last else [s, fill]), delim, remove)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for delim, word in ((',', 'comma'), ('?', 'ask'), (':', 'colon')):
        for remove in (True, False):
            tail = word + ('' if remove else 'raw')
            for n in range(0, 7 if big else 6):
                if n > (5 if big else 4) and delim != ',':
                    continue
                out.append(('%s%d' % (tail, n), text, {
                    'n': n, 'alpha': '()[]"\\a,' + (
                        delim if delim != ',' else 'b'),
                    'delim': delim, 'remove': remove}))
            out.append((tail + 'any', text, {
                'n': 2, 'alpha': 'ascii:', 'delim': delim, 'remove': remove,
                'before': 'a' + delim, 'after': delim + 'b'}))
            for what in ('args', 'nest', 'vars'):
                for last in (False, True):
                    if delim != ',' and not last:
                        continue
                    out.append(('%smany%s%d' % (tail, what, last), many, {
                        'delim': delim, 'remove': remove, 'last': last,
                        'what': what}))
            for lens in ((0, 2), (2, 0), (2, 2), (1, 3), (3, 1), (1, 1, 1),
                         (0, 1, 2), (2, 1, 0)):
                out.append((tail + ''.join(map(str, lens)), mixed, {
                    'lens': lens, 'delim': delim, 'remove': remove}))
    return out
