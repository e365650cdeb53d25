"""V01: ${variables} and $[expressions] are found and nested exactly."""
from asterisklint.varfun import VarLoader, VarParseError
from asterisklint.variable import Var
from asterisklint.where import DUMMY_WHERE
from props import dp, var
from props.common import fresh, names, msgs, tables

BOUNDS = {
    'quick': 'any text of 0..7 characters out of ten; any text of up to 5 '
             'characters inside, before or after each of ${} and $[]; any '
             'three characters, ASCII, as the name of a variable; three '
             'characters among up to 20 variables, nested up to 10 times',
    'thorough': 'any text of 0..8 characters',
}
OUTSIDE = 'longer text; substrings (V02) and functions (V03) are apart'
COVERS = ('unclosed', 'plain', 'variable', 'expression', 'nested',
          'E_VAR_BAD_TOKENS')
setup = dp.warm
LEGAL = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_'


def used(parts, out):
    """Names of the variables that stand there as plain text, innermost and
    leftmost first."""
    for p in parts:
        if isinstance(p, tuple):
            used(p[1], out)
            if p[0] == 'v':
                if not p[1]:
                    out.append('')
                elif len(p[1]) == 1 and not isinstance(p[1][0], tuple):
                    out.append(p[1][0])
    return out


def run(ctx, n, alpha, before='', after=''):
    text = before + ctx.str('text', n, alpha) + after
    fresh()
    loader = VarLoader()
    for table in tables(loader):
        table.clear()
    try:
        want = var.parse(text)
    except var.Unclosed:
        want = None
    try:
        got = loader.parse_variables(text, DUMMY_WHERE)
    except VarParseError:
        got = None
    if want is None or got is None:
        ctx.cover('unclosed')
        ctx.check(want is None and got is None, 'unclosed', text)
        return
    ctx.observe('got', str(got))
    ctx.check(str(got) == text, 'stands for the same text', str(got))
    tree = var.dump(got)
    ctx.check(tree == want, 'structure', (tree, want))
    ctx.check(isinstance(got, str) or len(got) == sum(
        1 if isinstance(p, tuple) else len(p) for p in want), 'length')
    for p in want:
        if isinstance(p, tuple):
            ctx.cover('variable' if p[0] == 'v' else 'expression')
            for q in p[1]:
                if isinstance(q, tuple):
                    ctx.cover('nested')
        else:
            ctx.cover('plain')
    vs = used(want, [])
    bad = [v for v in vs if not all(c in LEGAL for c in v)]
    if bad:
        ctx.cover('E_VAR_BAD_TOKENS')
    ctx.check(names() == ({'E_VAR_BAD_TOKENS': len(bad)} if bad else {}),
              'messages', (names(), bad))
    said = [m.fmtkwargs['data'] for m in msgs('E_VAR_BAD_TOKENS')]
    ctx.check(said == bad, 'bad names', (said, bad))
    count = 0
    for table in tables(loader):
        for v in table:
            count += len(table[v])
            ctx.check(v in vs, 'a variable that is used', v)
    ctx.check(count == len(vs), 'all variables counted', (count, vs))


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 9 if big else 8):
        out.append(('text%d' % n, run, {'n': n, 'alpha': '${}[]ab -"'}))
    k = 0
    for before, after in (('${', '}'), ('$[', ']'), ('${${', '}'),
                          ('${a', ''), ('x$[${', '}]'), ('${', '${b}}'),
                          ('${a}', ''), ('', '${a}'), ('$[', '}${a}]'),
                          ('${$[', '}'), ('${a${b}', '')):
        for n in range(1, 7 if big else 6):
            out.append(('in%d-%d' % (k, n), run, {
                'n': n, 'alpha': '${}[]b_ ', 'before': before,
                'after': after}))
        k += 1
    for k, (before, after) in enumerate((
            ('${' * 10, '}' * 10), ('$[' * 10 + '1', ']' * 10),
            ('${a}' * 20, ''), ('', '${a} ' * 20), ('x' * 300 + '${', '}'),
            ('${' + 'n' * 90, 'm}'), ('${a$[${b', '}]}' + 'y' * 200))):
        out.append(('far%d' % k, run, {
            'n': 3, 'alpha': '${}[]b_ ', 'before': before, 'after': after}))
    for n in (1, 2, 3):
        out.append(('name%d' % n, run, {
            'n': n, 'alpha': 'ascii:-(:', 'before': '${', 'after': '}'}))
    out.append(('uni', run, {'n': 1, 'alpha': 'bmp:-(:', 'before': '${',
                             'after': '}'}))
    return out
