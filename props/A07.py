"""A07: the applications inside ExecIf."""
from props import dp, app
from props.common import fresh, msgs, names

BOUNDS = {
    'quick': 'any application text of 1..5 characters out of eight, any of '
             'ten known applications with any data of up to 3 characters out '
             'of six, as first or second of an ExecIf, also nested in '
             'another; gotos with 1..2 arguments of up to 3 characters; '
             'GotoIf and GosubIf with two destinations as the action; six '
             'and nine deep with any data of 2 characters; two actions at '
             'once with up to 2 and 1; behind data of up to 240 characters',
    'thorough': 'texts of up to 6 and data of up to 4 characters',
}
OUTSIDE = 'longer text; actions that hold a colon or question mark outside ' \
    'parentheses, a backslash or double quote'
COVERS = ('first', 'second', 'nested', 'said', 'quiet', 'goto', 'comma', 'both',
          'deep', 'deeper')
setup = dp.warm
APPS = ['Goto', 'Set', 'NoOp', 'VoiceMail', 'Milliwatt', 'Gosub', 'Exec',
        'GotoIf', 'noop', 'Foo']


def lint(text):
    """Everything that is said: (name, line, fields)."""
    fresh()
    plan = dp.load({'m': app.HEAD + [
        b'exten => 1,1(b),NoOp()\n',
        ('exten => 1,2,' + text + '\n').encode('ascii')]})
    plan.walk_jump_destinations()
    out = []
    for name in sorted(names()):
        for m in msgs(name):
            out.append((name, m.where.lineno, [
                (k, str(m.fmtkwargs[k])) for k in sorted(m.fmtkwargs)]))
    return out


def judge(ctx, action, where):
    alone = lint(action)
    ctx.cover(where)
    if where == 'first':
        got = lint('ExecIf(${x}?' + action + ')')
    elif where == 'second':
        got = lint('ExecIf(${x}?NoOp():' + action + ')')
    elif where == 'deep':
        got = lint('ExecIf(${x}?' * 6 + action + ')' * 6)
    elif where == 'deeper':
        got = lint('ExecIf(${x}?NoOp():' * 9 + action + ')' * 9)
    else:
        got = lint('ExecIf(${x}?ExecIf(${y}?' + action + '))')
    # What is left open closes with the parenthesis of the ExecIf.
    ctx.observe('got', got)
    ctx.cover('said' if alone else 'quiet')
    ctx.check(got == alone, 'same messages', (action, got, alone))


def free(ctx, n, where):
    action = ctx.str('action', n, 'NOop() a,')
    ctx.assume(action[-1] != ' ' and depth(action))
    judge(ctx, action, where)


def depth(text):
    n = 0
    for c in text:
        if c == '(':
            n += 1
        elif c == ')':
            n -= 1
            if n < 0:
                return False
    return n == 0


def known(ctx, name, n, where):
    data = ctx.str('data', n, '1bau,()=|')
    ctx.assume(depth(data))
    if name == 'Goto':
        ctx.cover('goto')
    judge(ctx, name + '(' + data + ')', where)


def dests(ctx, n, where):
    """Actions with two destinations of their own."""
    data = ctx.str('data', n, '1bz,')
    other = ctx.choice('other', ['1', 'z', 'x,1', 'b'])
    app_ = ctx.choice('app', ['GotoIf', 'GosubIf'])
    if ctx.choice('swap', [False, True]):
        first, last = other, data
    else:
        first, last = data, other
    ctx.cover('goto')
    judge(ctx, app_ + '(${y}?' + first + ':' + last + ')', where)


def both(ctx, one, two, n, m):
    """Both actions are looked at."""
    a = ctx.str('a', n, '1ba,|=')
    b = ctx.str('b', m, '1ba,|=')
    one, two = one + '(' + a + ')', two + '(' + b + ')'
    ctx.cover('both')
    want = sorted(lint(one) + lint(two))
    got = sorted(lint('ExecIf(${x}?' + one + ':' + two + ')'))
    ctx.observe('got', got)
    ctx.check(got == want, 'messages of both', (one, two, got, want))


def long(ctx, name, before, n, where):
    """Long arguments."""
    data = ctx.str('data', n, '1ba,()=|')
    ctx.assume(depth(before + data))
    judge(ctx, name + '(' + before + data + ')', where)


def comma(ctx, n):
    """The ExecIf(cond,app,args) of Asterisk 1.4 is reported, and its action
    is looked at nevertheless."""
    data = ctx.str('data', n, 'ab1,')
    alone = lint('Goto(' + data + ')')
    got = lint('ExecIf(${x},Goto,' + data + ')')
    ctx.cover('comma')
    ctx.observe('got', got)
    mine = [m for m in got if m[0] == 'E_APP_ARG_IFSTYLE']
    ctx.check(len(mine) == 1, 'style')
    ctx.check([m for m in got if m[0] != 'E_APP_ARG_IFSTYLE'] == alone,
              'same messages', (got, alone))


def jobs(tier):
    big = tier != 'quick'
    out = []
    for where in ('first', 'second', 'nested'):
        for n in range(1, 7 if big else 6):
            if n == 5 and where == 'nested' and not big:
                continue
            out.append(('free%d%s' % (n, where), free,
                        {'n': n, 'where': where}))
        for name in APPS:
            for n in range(0, 5 if big else 4):
                out.append(('%s%d%s' % (name, n, where), known,
                            {'name': name, 'n': n, 'where': where}))
        for n in range(0, 4 if big else 3):
            out.append(('dests%d%s' % (n, where), dests,
                        {'n': n, 'where': where}))
    for where in ('deep', 'deeper'):
        for name in ('Goto', 'Set', 'VoiceMail', 'Foo'):
            out.append(('%s-%s' % (name, where), known,
                        {'name': name, 'n': 2, 'where': where}))
    for k, (one, two) in enumerate((
            ('Goto', 'Goto'), ('Set', 'VoiceMail'), ('Milliwatt', 'Gosub'),
            ('Goto', 'Set'), ('VoiceMail', 'Goto'), ('Foo', 'foo'))):
        for n, m in ((1, 1), (1, 2), (2, 1)):
            out.append(('both%d%d%d' % (k, n, m), both, {
                'one': one, 'two': two, 'n': n, 'm': m}))
    for k, (name, before) in enumerate((
            ('VoiceMail', '100@default&' * 20), ('Set', 'n' * 90 + '='),
            ('Goto', 'c' * 80 + ',' + '1' * 40 + ','),
            ('Set', 'a=' + '(b,c)' * 8), ('NoOp', ','.join('word' * 12)))):
        for where in ('first', 'second'):
            out.append(('long%d%s' % (k, where), long, {
                'name': name, 'before': before, 'n': 2, 'where': where}))
    for n in range(0, 5):
        out.append(('comma%d' % n, comma, {'n': n}))
    return out
