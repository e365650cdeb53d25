"""A03: the names of applications."""
from props import dp, app
from props.asterisk import APP_MODULE
from props.common import fresh, names, msgs

BOUNDS = {
    'quick': 'any name of 1..3 letters, 4 letters out of those of the known '
             'ones; all 120 known names, each letter in either case; one '
             'letter more or less; 1..3 times any of six spellings of '
             'Background',
    'thorough': 'Background up to 4 times',
}
OUTSIDE = 'longer unknown names; an application by the name of Unknown'
COVERS = ('known', 'W_APP_BAD_CASE', 'E_APP_MISSING', 'first', 'later')
setup = dp.warm
LONG = [n for n in sorted(APP_MODULE) if n != 'Background']
MINE = ('E_APP_MISSING', 'W_APP_BAD_CASE')


def judge(ctx, name, want, proper=None):
    app.lint(name + '()')
    got = [n for n in names() if n in MINE]
    for w in want or ['known']:
        ctx.cover(w)
    ctx.observe('got', got)
    ctx.check(got == want, 'messages', (name, got, want))
    for m in [m for n in MINE for m in msgs(n)]:
        ctx.check(m.fmtkwargs['app'] == name, 'name in the message')
        ctx.check(m.where.lineno == 4, 'line')
    if proper:
        for m in msgs('W_APP_BAD_CASE'):
            ctx.check(m.fmtkwargs['proper'] == proper, 'proper name')


def free(ctx, n, alpha, after=''):
    name = ctx.str('name', n, alpha) + after
    judge(ctx, name, app.name_says(name, app.SHORT))


def cased(ctx, known):
    """Every letter in either case."""
    name = ''
    for k, c in enumerate(known):
        name += ctx.str('c%d' % k, 1, c.lower() + c.upper()
                        if c.isalpha() else c)
    judge(ctx, name, [] if name == known else ['W_APP_BAD_CASE'], known)


def near(ctx, known):
    which = ctx.choice('which', ['more', 'less', 'front'])
    if which == 'more':
        name = known + ctx.str('c', 1, 'alnum:_-')
    elif which == 'front':
        name = ctx.str('c', 1, 'alnum:_-') + known
    else:
        name = known[:-1]
    ctx.assume(app.lower(name) not in [app.lower(n) for n in APP_MODULE])
    judge(ctx, name, ['E_APP_MISSING'])


def background(ctx, n):
    fresh()
    lines = []
    said = []
    chosen = None
    for i in range(n):
        name = ctx.choice('name%d' % i, [
            'Background', 'BackGround', 'background', 'BACKGROUND',
            'backGround', 'BackGrounD'])
        lines.append(('exten => 1,%d,%s(x)\n' % (i + 1, name)).encode('ascii'))
        if chosen is None and name in ('Background', 'BackGround'):
            chosen = name
            ctx.cover('first')
        elif name != (chosen or 'Background'):
            said.append((4 + i, name, chosen or 'Background'))
            ctx.cover('later')
    dp.load({'m': app.HEAD + lines})
    got = [(m.where.lineno, m.fmtkwargs['app'], m.fmtkwargs['proper'])
           for m in msgs('W_APP_BAD_CASE')]
    ctx.observe('got', got)
    ctx.check(got == said, 'messages', (got, said))
    ctx.check(not msgs('E_APP_MISSING'), 'missing')


def jobs(tier):
    out = []
    for n in (1, 2, 3):
        out.append(('free%d' % n, free, {'n': n, 'alpha': 'alpha:'}))
    for n in (3, 4):
        out.append(('free%db' % n, free, {'n': n, 'alpha': 'aegiodlchxptnrsw'}))
        out.append(('free%dc' % n, free, {'n': n, 'alpha': 'AEGIDLNORSWPnopt'}))
    for known in LONG:
        out.append(('case' + known, cased, {'known': known}))
        out.append(('near' + known, near, {'known': known}))
    for n in range(1, 5 if tier != 'quick' else 4):
        out.append(('background%d' % n, background, {'n': n}))
    return out
