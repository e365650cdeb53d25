"""A06: <condition>?<one>:<other>."""
from props import dp, app
from props.common import names, msgs

BOUNDS = {
    'quick': 'GotoIfTime with any data of 0..5 characters out of nine; '
             'GotoIf, GosubIf and ExecIf with any text of up to 3 characters '
             'before and behind a variable or an expression as condition, '
             'and with any data of up to 4 characters; three characters '
             'behind or before six others of up to 200',
    'thorough': 'up to 6 and 5 characters',
}
OUTSIDE = 'longer data; a backslash at the end; what becomes of the actions ' \
    '(A05, A07)'
COVERS = ('E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'E_APP_ARG_IFSTYLE',
          'E_APP_ARG_IFEMPTY', 'E_APP_ARG_IFCONST', 'fine')
setup = dp.warm
MINE = ('E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'E_APP_ARG_IFSTYLE',
        'E_APP_ARG_IFEMPTY', 'E_APP_ARG_IFCONST')
HOLE = '\n'


def spec(text, var):
    """var: does the application want a variable for condition?"""
    args = app.args_of(text, '?', False)
    said = []
    if len(args) > 1:
        cond = args[0]
        if len(args) > 2:
            said.append('E_APP_ARG_MANY')
    else:
        args = app.args_of(text, ',', False)
        cond = args[0]
        said.append('E_APP_ARG_IFSTYLE' if len(args) > 1 else 'E_APP_ARG_FEW')
    while cond and cond[0] in ' \t':
        cond = cond[1:]
    while cond and cond[-1] in ' \t':
        cond = cond[:-1]
    if not cond:
        said.append('E_APP_ARG_IFEMPTY')
    elif var and [c for c in cond if c != HOLE]:
        said.append('E_APP_ARG_IFCONST')
    return said


def judge(ctx, name, data, text):
    app.lint(name + '(' + data + ')')
    want = spec(text, name != 'GotoIfTime')
    got = []
    for n in names():
        if n in MINE:
            # (A destination with too many parts is another matter: A05.)
            mine = [m for m in msgs(n) if m.fmtkwargs['app'] == name and
                    m.fmtkwargs.get('max_args') != 3]
            got += [n] * len(mine)
            for m in mine:
                ctx.check(m.where.lineno == 4, 'line')
    for w in want or ['fine']:
        ctx.cover(w)
    ctx.observe('got', got)
    ctx.check(sorted(got) == sorted(want), 'messages', (data, got, want))


def run(ctx, name, n, alpha, before='', after=''):
    data = before + ctx.str('data', n, alpha) + after
    ctx.assume(data[-1:] != '\\')
    judge(ctx, name, data, data)


def mixed(ctx, name, lens, var, alpha, tail=''):
    parts = [ctx.str('part%d' % k, n, alpha) for k, n in enumerate(lens)]
    parts[-1] += tail
    judge(ctx, name, var.join(parts), HOLE.join(parts))


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 7 if big else 6):
        out.append(('time%d' % n, run, {
            'name': 'GotoIfTime', 'n': n, 'alpha': '?:,a( )"\\'}))
    for k, (before, after) in enumerate((
            ('9:00-17:00,mon-fri,*,*', '?a'), ('*,*,*,*?', ''),
            ('a' * 200, '?b:c'), ('"?:"', '?a'), ('(?),[:]', '?a'),
            ('x?(a?b:c)', ''), ('x?[a:b]:"c:d"', ''))):
        out.append(('far%d' % k, run, {
            'name': 'GotoIfTime', 'n': 3, 'alpha': '?:,a( )"\\',
            'before': before, 'after': after}))
    for name in ('GotoIf', 'GosubIf', 'ExecIf'):
        for n in range(0, 6 if big else 5):
            out.append(('%s%d' % (name, n), run, {
                'name': name, 'n': n, 'alpha': '?:,a ("'}))
        for var in ('${x}', '$[1 = ${x}?]'):
            for lens in ((0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1),
                         (1, 2), (0, 2), (0, 0, 0), (0, 1, 0), (1, 1, 1)):
                what = '%s%s%s' % (name, ''.join(map(str, lens)), var[1])
                out.append((what, mixed, {
                    'name': name, 'lens': lens, 'var': var,
                    'alpha': '?:, a"'}))
                out.append((what + 't', mixed, {
                    'name': name, 'lens': lens, 'var': var,
                    'alpha': ' a()', 'tail': '?a'}))
    return out
