"""A01: name(data) of an application."""
from props import dp, app
from props.common import names, msgs
from props.V05 import balanced
from props.V06 import Quiet

BOUNDS = {
    'quick': 'any text of 0..6 characters out of eight as application; '
             'NoOp with any text of up to 3 characters, ASCII, before, '
             'behind and between its parentheses; three such characters '
             'between three beginnings and ends of up to 1000',
    'thorough': 'any text of up to 7 characters out of eight',
}
OUTSIDE = 'longer text; text in which variables are opened (V01)'
COVERS = ('E_APP_WSH', 'W_APP_WSH', 'W_APP_NEED_PARENS', 'E_APP_MISSING',
          'W_APP_BAD_CASE', 'W_APP_BALANCE', 'fine', 'nodata')
setup = dp.warm


def spec(text):
    """-> data or None, messages"""
    said = []
    pos = text.find('(')
    if pos < 0:
        name, data = text, ''
        if app.lower(name) != 'noop':
            said.append('W_APP_NEED_PARENS')
    else:
        name, data = text[:pos], text[pos:]
        if data[-1] == ')':
            data = data[1:-1]
    if name[-1:] and name[-1:].isspace():
        return None, said + ['E_APP_WSH']
    if name[:1] and name[:1].isspace():
        said.append('W_APP_WSH')
        while name[0].isspace():
            name = name[1:]
    if not name:
        return None, said + ['E_APP_MISSING']
    said += app.name_says(name, app.SHORT)
    if not balanced(data, Quiet()):
        said.append('W_APP_BALANCE')
    return data, said


def run(ctx, n, alpha, before='', after=''):
    text = before + ctx.str('text', n, alpha) + after
    # Blanks at the end of the line are not part of the value (F01).
    ctx.assume(text[-1:] not in (' ', '\t') or not text)
    plan = app.lint(text)
    data, want = spec(text)
    got = [m for m in names() if m[2:5] == 'APP']
    for w in want or ['fine']:
        ctx.cover(w)
    ctx.observe('got', got)
    ctx.check(sorted(got) == sorted(set(want)), 'messages',
              (text, got, want))
    for name in got:
        ctx.check(len(msgs(name)) == 1, 'once')
    if data is None:
        ctx.cover('nodata')
    else:
        mine = plan.contexts[0][0].app
        ctx.check(str(mine.data) == data, 'data', (text, data))


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 8 if big else 7):
        out.append(('text%d' % n, run, {'n': n, 'alpha': 'NOo() \tp"'}))
    for k, (before, after) in enumerate((
            ('NoOp(' + '(' * 12, ')' * 13), ('NoOp(' + 'a,b ' * 250, ')'),
            ('nOoP(' + '()' * 40, '()' * 40 + ')'), ('NoOp', 'x' * 80),
            ('NoOp("', '"' + 'y' * 500 + ')'))):
        out.append(('far%d' % k, run, {
            'n': 3, 'alpha': 'NOo() \tp"', 'before': before,
            'after': after}))
    # VT, FF and separators are whitespace too; see OUTSIDE in F01.
    rest = 'asciiq:-\n\r$;\\'
    for n in (1, 2, 3):
        out.append(('before%d' % n, run, {
            'n': n, 'alpha': rest, 'after': 'NoOp(x)'}))
        out.append(('behind%d' % n, run, {
            'n': n, 'alpha': rest, 'before': 'NoOp'}))
        out.append(('inside%d' % n, run, {
            'n': n, 'alpha': rest, 'before': 'NoOp(', 'after': ')'}))
        out.append(('tail%d' % n, run, {
            'n': n, 'alpha': rest, 'before': 'NoOp()'}))
    return out
