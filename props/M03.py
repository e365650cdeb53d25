"""M03: messages quote the dialplan as it is written."""
from asterisklint.variable import Var
from props import R01
from props.common import fresh, msgs, names

BOUNDS = {
    'quick': 'each kind of application and function with up to 3 pieces out '
             'of ten characters and five variables; lines and keywords as '
             'in R01 with up to 3 characters',
    'thorough': 'up to 4 pieces',
}
OUTSIDE = 'quotes and backslashes, which are removed from arguments; ' \
    'messages about a place other than that of the line (D04, A05)'
COVERS = ('plain', 'variable', 'application', 'function', 'keyword')
setup = R01.setup
VARS = ['${x}', '${xy:1}', '${LEN(y)}', '$[1+${x}]', '${a${b}}']
ALPHA = 'a1,?:=()| '
# What these say is not in the line: the proper spelling, and what Asterisk
# would make of it; and options are listed without what is between (A04).
OTHER = ('proper', 'expected', 'opts')
JUMPS = ('E_DP_GOTO_CONTEXT_NOLABEL', 'E_DP_GOTO_NOCONTEXT',
         'E_DP_GOTO_NOLABEL', 'W_DP_GOTO_CONTEXT_NOEXTEN')


def judge(ctx, text, what):
    lines = [b'[general]\n', b'[globals]\n', b'[a]\n',
             (text + '\n').encode('ascii')]
    R01.lint(lines)
    ctx.cover(what)
    for name in names():
        for m in msgs(name):
            if name in JUMPS:
                continue
            for k in sorted(m.fmtkwargs):
                v = m.fmtkwargs[k]
                if k in OTHER or not isinstance(v, (str, Var)):
                    continue
                ctx.cover('variable' if isinstance(v, Var) else 'plain')
                ctx.check(str(v) in text or (k == 'app' and v == '(none)'),
                          '%s: %s as written' % (name, k), str(v))
    ctx.check(' object at ' not in ctx.output(), 'no internals')


def pieces(ctx, n):
    out = ''
    for i in range(n):
        k = ctx.choice('piece%d' % i, [None] + VARS)
        out += ctx.str('c%d' % i, 1, ALPHA) if k is None else k
    return out


def appl(ctx, name, n):
    judge(ctx, 'exten => 1,1,' + name + '(' + pieces(ctx, n) + ')',
          'application')


def func(ctx, name, n, how):
    judge(ctx, 'exten => 1,1,' + how % (name + '(' + pieces(ctx, n) + ')'),
          'function')


def keyword(ctx, word, n):
    judge(ctx, word + ' => ' + ctx.str('text', n, '1_n,.[]- a'), 'keyword')


def jobs(tier):
    big = tier != 'quick'
    out = []
    most = 4 if big else 3
    for word in R01.WORDS:
        for n in range(0, most + 1):
            out.append(('%s%d' % (word, n), keyword, {
                'word': word, 'n': n}))
    for name in R01.APPS:
        for n in range(0, most + 1):
            out.append(('%s%d' % (name, n), appl, {'name': name, 'n': n}))
    for name in R01.FUNCS:
        for i, how in enumerate(('NoOp(${%s})', 'Set(%s=1)',
                                 'ExecIf($[${%s:1}]?NoOp())')):
            for n in range(0, most + (i == 0)):
                out.append(('%s%d-%d' % (name, n, i), func, {
                    'name': name, 'n': n, 'how': how}))
    return out
