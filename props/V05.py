"""V05: unbalanced quotes and brackets."""
from asterisklint.variable import variable_check_balance
from props import dp
from props.common import fresh, names, msgs

BOUNDS = {
    'quick': 'any text of up to 6 characters (of all ASCII) as data of an '
             'application; up to 4 as argument of a function that is read '
             'or written; three characters among up to 500 others, nested up '
             'to 30 times',
    'thorough': 'up to 7 and 5 characters',
}
OUTSIDE = 'longer text'
COVERS = ('balanced', 'unbalanced', 'quoted', 'function', 'write')
setup = dp.warm


def balanced(text, ctx):
    """Drop what is quoted, then all innermost pairs."""
    rest = []
    quote = None
    for c in text:
        if quote is not None:
            if c == quote:
                quote = None
                ctx.cover('quoted')
        elif c == '"' or c == "'":
            quote = c
        elif c in '(){}[]':
            rest.append(c)
    if quote is not None:
        return False
    changed = True
    while changed:
        changed = False
        for i in range(len(rest) - 1):
            a, b = rest[i], rest[i + 1]
            if ((a == '(' and b == ')') or (a == '{' and b == '}') or
                    (a == '[' and b == ']')):
                rest = rest[:i] + rest[i + 2:]
                changed = True
                break
    return not rest


def app(ctx, n, alpha, before='', after=''):
    text = before + ctx.str('text', n, alpha) + after
    fresh()
    dp.load({'m': [b'[general]\n', b'[globals]\n', b'[a]\n',
                   ('exten => 1,1,NoOp(' + text + ')\n').encode('ascii')]})
    ok = balanced(text, ctx)
    ctx.cover('balanced' if ok else 'unbalanced')
    got = names()
    ctx.observe('got', got)
    ctx.check(got == ({} if ok else {'W_APP_BALANCE': 1}), 'messages',
              (got, ok))
    for m in msgs('W_APP_BALANCE'):
        ctx.check(m.fmtkwargs['data'] == text, 'data in message')


def func(ctx, n, alpha, write):
    text = ctx.str('text', n, alpha)
    if write:
        ctx.cover('write')
        data = 'Set(HASH(' + text + ')=x)'
    else:
        ctx.cover('function')
        data = 'NoOp(${HASH(' + text + ')})'
    fresh()
    dp.load({'m': [b'[general]\n', b'[globals]\n', b'[a]\n',
                   ('exten => 1,1,' + data + '\n').encode('ascii')]})
    ok = balanced(text, ctx)
    got = names()
    if 'W_APP_BALANCE' in got:
        ctx.check(write and not ok, 'application')
        del got['W_APP_BALANCE']
    ctx.observe('got', got)
    ctx.check(got == ({} if ok else {'W_FUNC_BALANCE': 1}), 'messages',
              (got, ok))


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 8 if big else 7):
        out.append(('app%d' % n, app, {
            'n': n, 'alpha': 'ascii:-\n\r$;\\ \t\0\x01\x02\x03\x04\x05\x06\x07'
            '\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19'
            '\x1a\x1b\x1c\x1d\x1e\x1f\x7f' if n < 6 else '()[]\'"a'}))
    for n in range(1, 4 if big else 3):
        for k, (before, after) in enumerate((
                ('${x}', ''), ('(${x}', ''), ('"${x}', '"'),
                ('', '(${y})'), ('[${x}', ']'))):
            out.append(('var%d-%d' % (k, n), app, {
                'n': n, 'alpha': '()[]\'"a', 'before': before,
                'after': after}))
    for k, (before, after) in enumerate((
            ('(' * 30, ')' * 30), ('([{' * 5, '}])' * 5), ('x' * 500, ''),
            ('(a) ' * 40, ' [b]' * 40), ('"' + '(' * 20, '"'),
            ("'a' \"b\" " * 20, '')) ):
        out.append(('far%d' % k, app, {
            'n': 3, 'alpha': '()[]{}\'"a', 'before': before,
            'after': after}))
    for n in range(0, 6 if big else 5):
        for write in (False, True):
            out.append(('func%d%s' % (n, 'rw'[write]), func, {
                'n': n, 'alpha': '()[]"\'a', 'write': write}))
    return out
