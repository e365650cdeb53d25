"""A05: the destinations of Goto, GotoIf, Gosub and GosubIf."""
from props import dp, app, pat
from props.common import fresh, raised, msgs

BOUNDS = {
    'quick': 'any destination of 0..5 characters out of seven for Goto and '
             'Gosub, of up to 4 with up to 3 characters of arguments behind '
             'it for Gosub, of up to 4 and 2 characters for either '
             'side of GotoIf and GosubIf; any of up to 4 out of five with superscript digits among them; any '
             'one character, ASCII, for each '
             'of the three parts; 4 to 6 arguments of any one of four '
             'characters; numbers of up to three digits on an extension with '
             'twelve priorities; an empty extension or ${EXTEN} on any name or '
             'pattern of up to two characters out of ten and a set',
    'thorough': 'any destination of up to 6 characters; up to 8 arguments',
}
OUTSIDE = 'longer destinations; quotes, brackets and backslashes in them; ' \
    'relative priorities, which asterisklint takes for labels'
COVERS = ('found', 'E_DP_GOTO_NOCONTEXT', 'W_DP_GOTO_CONTEXT_NOEXTEN',
          'E_APP_ARG_MANY', 'current', 'number', 'none', 'arguments', 'own', 'own: none',
          'far', 'too far')
setup = dp.warm
LINES = app.HEAD + [
    b'exten => b,1(c),NoOp()\n', b'exten => b,n,NoOp()\n',
    b'[b]\n', b'exten => 1,1(a),NoOp()\n', b'exten => 1,n,NoOp()\n']
PLAN = {'a': [('b', 1, 'c'), ('b', 2, None), ('5', 1, None)],
        'b': [('1', 1, 'a'), ('1', 2, None)]}


def read(ctx, text):
    """-> (context, exten, prio)"""
    args = text.split(',')
    if len(args) > 3:
        ctx.cover('E_APP_ARG_MANY')
        args = args[:2] + [','.join(args[2:])]
    while len(args) < 3:
        args = [''] + args
    context, exten, prio = args
    if prio:
        number = 0
        for c in prio:
            if not ('0' <= c and c <= '9'):
                break
            number = number * 10 + ord(c) - 48
        else:
            prio = number
            ctx.cover('number')
    if not exten:
        ctx.cover('current')
    return context or 'a', exten or '5', prio


def spec(ctx, texts):
    said = []
    for text in texts:
        context, exten, prio = read(ctx, text)
        if context not in ('a', 'b'):
            said.append(('E_DP_GOTO_NOCONTEXT', context, exten, prio))
            continue
        for e, p, l in PLAN[context]:
            if exten.replace('-', '') == e and (prio == p or prio == l):
                ctx.cover('found')
                break
        else:
            said.append(('W_DP_GOTO_CONTEXT_NOEXTEN', context, exten, prio))
    return said


def judge(ctx, text, dests):
    fresh()
    plan = dp.load({'m': LINES[:5] + [
            ('exten => 5,1,' + text + '\n').encode('utf-8')] + LINES[5:]})
    plan.walk_jump_destinations()
    got = []
    for name in ('E_DP_GOTO_NOCONTEXT', 'W_DP_GOTO_CONTEXT_NOEXTEN'):
        for m in msgs(name):
            got.append((name, str(m.fmtkwargs['context']),
                        str(m.fmtkwargs['exten']), m.fmtkwargs['prio']))
            ctx.check(m.where.lineno == 6, 'line')
    want = spec(ctx, dests)
    for w in want:
        ctx.cover(w[0])
    if not dests:
        ctx.cover('none')
    ctx.observe('got', got)
    ctx.check(sorted(got, key=order) == sorted(want, key=order),
              'messages', (text, got, want))
    ctx.check(not [m for m in raised() if m[0][:10] == 'E_DP_GOTO_' and
                   m[0] != 'E_DP_GOTO_NOCONTEXT'], 'nothing else')


def order(m):
    return (m[0], m[1], m[2], str(m[3]))


def goto(ctx, name, n, alpha):
    text = ctx.str('text', n, alpha)
    judge(ctx, name + '(' + text + ')', [text])


def parts(ctx, name):
    # A blank, quotes and the like are part of the text, too.
    text = ','.join(ctx.str('part%d' % k, 1, 'ascii:-\n\r\t;$\\\0"()[],-+|')
                    for k in range(3))
    judge(ctx, name + '(' + text + ')', [text])


def gosub(ctx, n, m):
    text = ctx.str('text', n, 'ab15,')
    args = ctx.str('args', m, 'a1,)(')
    ctx.cover('arguments')
    ctx.assume(depth(args))
    judge(ctx, 'Gosub(' + text + '(' + args + '))', [text])


def depth(text):
    """Are the parentheses paired?"""
    n = 0
    for c in text:
        if c == '(':
            n += 1
        elif c == ')':
            n -= 1
            if n < 0:
                return False
    return n == 0


def iff(ctx, name, n, m):
    text = ctx.str('text', n, 'ab1c,')
    dests = [text] if text else []
    if m is not None:
        other = ctx.str('other', m, 'ab1,')
        if other:
            dests.append(other)
        text += ':' + other
    judge(ctx, name + '(${x}?' + text + ')', dests)


def own(ctx, u, n, post):
    """Whatever extension it stands on: that has its own priorities."""
    pattern = u + ctx.str('pattern', n, '01XzN.!-as') + post
    its = pat.items(pattern)
    ctx.assume(len(its) > 0)
    # A name that only looks like a pattern, and the other way around.
    ctx.assume(not (its[0][0] == '!' and len(its) == 1))
    for it in its[0:-1]:
        ctx.assume(it[0] not in '.!')
    ctx.assume(u == '_' or pattern[0] not in '-_')
    app_ = ctx.choice('app', ['Goto', 'Gosub'])
    prio = ctx.choice('prio', ['1', '2', '3', 'a', 'b', ',1', '${EXTEN},2',
                               '${EXTEN},4', 'a,${EXTEN},1', '${EXTEN},b'])
    fresh()
    plan = dp.load({'m': app.HEAD[0:2] + [
        b'[a]\n',
        ('exten => %s,1(a),NoOp()\n' % pattern).encode('ascii'),
        ('exten => %s,2,%s(%s)\n' % (pattern, app_, prio)).encode('ascii'),
    ]})
    plan.walk_jump_destinations()
    there = prio[-1:] in '12a'
    if not there and prio[-1:] in '34' and pat.matches(pattern, 'i'):
        there = True    # the invalid extension
    ctx.cover('own' if there else 'own: none')
    got = [m[0] for m in raised() if 'GOTO' in m[0]]
    ctx.check(got == ([] if there else ['W_DP_GOTO_CONTEXT_NOEXTEN']),
              'its own', (pattern, prio, got))


def many(ctx, name, count):
    """More and more arguments; those at the end are one priority."""
    text = ','.join(ctx.str('field%d' % k, 1, 'ab15')
                    for k in range(count))
    judge(ctx, name + '(' + text + ')', [text])


def far(ctx, name, n, where):
    """Long names, a long list of priorities."""
    fresh()
    prio = ctx.str('prio', n, '0123456789')
    number = 0
    for c in prio:
        number = number * 10 + ord(c) - 48
    plan = dp.load({'m': app.HEAD[0:2] + [
        b'[from-a-long-way-off]\n',
        b'exten => 0123456789,1(start-of-it),NoOp()\n'] + [
            b'same => n,NoOp()\n'] * 10 + [
        b'same => n(end-of-it),NoOp()\n',
        ('exten => x,1,%s(%s%s)\n' % (name, where, prio)).encode('ascii'),
        ('same => n,%s(%send-of-it)\n' % (name, where)).encode('ascii'),
        ('same => n,%s(%send-of-i)\n' % (name, where)).encode('ascii')]})
    plan.walk_jump_destinations()
    there = 1 <= number <= (12 if where else 3)
    ctx.cover('far' if there else 'too far')
    got = [(m.where.lineno, str(m.fmtkwargs['prio']))
           for m in msgs('W_DP_GOTO_CONTEXT_NOEXTEN')]
    want = [] if there else [(16, str(number))]
    if not where:
        want.append((17, 'end-of-it'))
    want.append((18, 'end-of-i'))
    ctx.check(got == want, 'far', (prio, got, want))
    ctx.check(len([m for m in raised() if 'GOTO' in m[0]]) == len(want),
              'far: nothing else')


def jobs(tier):
    big = tier != 'quick'
    out = []
    for name in ('Goto', 'Gosub'):
        for n in range(0, 7 if big else 6):
            out.append(('%s%d' % (name, n), goto,
                        {'name': name, 'n': n, 'alpha': 'ab125c,'}))
        for n in range(1, 5):
            # A superscript is no number.
            out.append(('%suni%d' % (name, n), goto, {
                'name': name, 'n': n, 'alpha': 'a1,\u00b2\u2460'}))
        out.append((name + 'parts', parts, {'name': name}))
    for n in range(1, 4 if big else 3):
        for u in ('', '_'):
            for post in ('', '[2-5]', '[-9]x'):
                if u or not post:
                    out.append(('own%s%d%s' % (u, n, post), own, {
                        'u': u, 'n': n, 'post': post}))
    for n in range(1, 5):
        for m in range(0, 4):
            out.append(('args%d%d' % (n, m), gosub, {'n': n, 'm': m}))
    for name in ('Goto', 'Gosub'):
        for n in range(4, 9 if big else 7):
            out.append(('%smany%d' % (name, n), many,
                        {'name': name, 'count': n}))
        for n in range(1, 4):
            for where in ('', '0123456789,',
                          'from-a-long-way-off,0123456789,',
                          'from-a-long-way-off,01-23-45-67-89,'):
                out.append(('%sfar%d%s' % (name, n, where), far,
                            {'name': name, 'n': n, 'where': where}))
    for name in ('GotoIf', 'GosubIf'):
        for n in range(0, 5):
            for m in (None, 0, 1, 2):
                out.append(('%s%d%s' % (name, n, m), iff,
                            {'name': name, 'n': n, 'm': m}))
    return out
