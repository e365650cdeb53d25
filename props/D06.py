"""D06: the dialplan as shown by Asterisk."""
from props import dp
from props.common import fresh

BOUNDS = {
    'quick': '1..3 extensions in one context with any of ten patterns, any '
             'of three priorities and labels; two contexts with 0..2 '
             'extensions and includes; up to three includes of any names '
             'in any order; any two characters as application '
             'data; both orders of the contexts',
    'thorough': '1..4 extensions in one context with any of five patterns',
}
OUTSIDE = 'larger dialplans'
COVERS = ('label', 'next', 'reverse', 'forward', 'include', 'swap')
setup = dp.warm
# In the order in which Asterisk tries (and shows) them.
PATS = ['1', '12', '2', 's', '_1[25]', '_13', '_[23]', '_X', '_X.', '_.']
SAME = {'_[0-9]': '_X', '_[3-2]': '_[23]'}
ORDER = ['1', '12', '2', 's', '_13', '_1[25]', '_[23]', '_X.', '_X', '_.']


def show(ctx, contexts, reverse):
    out = []
    for name, rows, includes in (contexts[::-1] if reverse else contexts):
        out.append("[ Context '" + name + "' created by 'pbx_config' ]")
        todo = []
        for pattern in ORDER:
            mine = [r for r in rows if SAME.get(r[0], r[0]) == pattern]
            for prio in range(1, 101):
                for r in mine:
                    if r[1] == prio:
                        todo.append(r)
        last = None
        for k, (pattern, prio, label, app) in enumerate(todo):
            eq = SAME.get(pattern, pattern)
            if eq != last:
                left = "'" + pattern + "' =>"
                last = eq
            elif label:
                left = '   [' + label + ']'
                ctx.cover('label')
            else:
                left = ''
                ctx.cover('next')
            right = str(prio) + '. ' + app
            out.append('  ' + left + ' ' * (17 - len(left)) + ' ' + right +
                       ' ' * (45 - len(right)) + ' [pbx_config]')
        for inc in includes:
            ctx.cover('include')
            out.append('  Include =>        ' + "'" + inc + "'" +
                       ' ' * (43 - len(inc)) + ' [pbx_config]')
        out.append('')
    return out


def verdict(ctx, contexts, reverse=True):
    lines = [b'[general]\n', b'x=y\n', b'[globals]\n', b'y=z\n']
    for name, rows, includes in contexts:
        lines.append(('[' + name + ']\n').encode('ascii'))
        for pattern, prio, label, app in rows:
            lines.append((
                'exten => ' + pattern + ',' + str(prio) +
                ('(' + label + ')' if label else '') + ',' + app +
                '\n').encode('ascii'))
        for inc in includes:
            lines.append(('include => ' + inc + '\n').encode('ascii'))
    fresh()
    plan = dp.load({'m': lines})
    got = plan.format_as_dialplan_show(reverse=reverse)
    want = '\n'.join(show(ctx, contexts, reverse))
    # Again, the other way around: showing changes nothing.
    other = plan.format_as_dialplan_show(reverse=not reverse)
    ctx.check(other == '\n'.join(show(ctx, contexts, not reverse)),
              'output, the second time', other)
    ctx.cover('reverse' if reverse else 'forward')
    ctx.observe('got', got)
    ctx.check(got == want, 'output', (got, want))


def rows(ctx, tag, n, pats, prios, labels):
    out = []
    for i in range(n):
        r = (ctx.choice(tag + 'p%d' % i, pats),
             ctx.choice(tag + 'n%d' % i, prios),
             ctx.choice(tag + 'l%d' % i, labels), 'NoOp(%d)' % i)
        for q in out:
            same = SAME.get(q[0], q[0]) == SAME.get(r[0], r[0])
            ctx.assume(not (same and q[1] == r[1]))
            ctx.assume(not (same and r[2] and q[2] == r[2]))
            if same and q[1] > r[1]:
                ctx.cover('swap')
        out.append(r)
    return out


def one(ctx, n, pats, prios, labels):
    verdict(ctx, [('a', rows(ctx, 'a', n, pats, prios, labels), [])])


def two(ctx, n, m):
    cs = [('b', rows(ctx, 'b', n, ['1', '_X'], [1, 2], [None, 'l']),
           ['a'] if ctx.bool('i') else []),
          ('a', rows(ctx, 'a', m, ['s', '_X'], [1, 2], [None]),
           ['b,*,mon,*,*', 'zz'] if ctx.bool('j') else ['c'])]
    verdict(ctx, cs, reverse=ctx.bool('rev'))


def includes(ctx, n):
    """Any includes, in their order, between the extensions or not."""
    incs = [ctx.str('i%d' % k, 1, 'abz') + ctx.choice('t%d' % k, [
        '', ',9:00-17:00,mon-fri,*,*']) for k in range(n)]
    rows = [('1', 1, None, 'NoOp(0)'), ('_X', 1, None, 'NoOp(1)')]
    verdict(ctx, [('a', rows[0:1 if ctx.bool('one') else 2], incs),
                  ('b', [], incs[0:1])])


def data(ctx, n):
    app = ctx.str('app', n, 'ascii:-\n\r;\0\x01\x02\x03\x04\x05\x06\x07\x08'
                  '\t\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18'
                  '\x19\x1a\x1b\x1c\x1d\x1e\x1f\x7f$\\')
    verdict(ctx, [('a', [('1', 1, None, 'NoOp(' + app + ')')], [])])


def wide(ctx):
    """Columns grow with what is in them."""
    name = '1' * ctx.choice('name', [1, 12, 13, 14, 40])
    label = ctx.choice('label', ['', 'l' * 11, 'l' * 12, 'l' * 40])
    app = 'NoOp(' + 'x' * ctx.choice('app', [35, 36, 37, 400]) + ')'
    inc = 'i' * ctx.choice('inc', [41, 42, 43, 80])
    fresh()
    plan = dp.load({'m': [
        b'[a]\n', ('exten => %s,1,%s\n' % (name, app)).encode('ascii'),
        ('exten => %s,2%s,%s\n' % (
            name, '(' + label + ')' if label else '', app)).encode('ascii'),
        ('include => %s\n' % inc).encode('ascii')]})
    got = plan.format_as_dialplan_show().split('\n')

    def column(text, n):
        return text + ' ' * (n - len(text))
    tail = ' [pbx_config]'
    want = ["[ Context 'a' created by 'pbx_config' ]",
            '  ' + column("'" + name + "' =>", 17) + ' ' +
            column('1. ' + app, 45) + tail,
            '     ' + column('[' + label + ']' if label else '', 14) + ' ' +
            column('2. ' + app, 45) + tail,
            '  ' + column('Include =>', 17) + ' ' +
            column("'" + inc + "'", 45) + tail, '']
    ctx.check(got == want, 'columns', (got, want))


def bare(ctx):
    fresh()
    tail = ctx.choice('tail', ['', '(', '(x', '()', '(x)'])
    plan = dp.load({'m': [b'[a]\n', ('exten => 1,1,Answer' + tail +
                                     '\n').encode('ascii')]})
    got = plan.format_as_dialplan_show()
    full = {'': '()', '(': '()', '(x': '(x)'}.get(tail, tail)
    want = '1. Answer' + full
    ctx.check(got.split('\n')[1] ==
              "  '1' =>            " + want + ' ' * (45 - len(want)) +
              ' [pbx_config]', 'parentheses', got)


def jobs(tier):
    big = tier != 'quick'
    few = ['1', '_X', '_[0-9]']
    out = [('bare', bare, {}), ('wide', wide, {})]
    out.append(('far', one, {
        'n': 3, 'pats': ['1', '_X'], 'prios': [2, 9, 10, 100],
        'labels': [None, 'l']}))
    out.append(('farther', one, {
        'n': 3, 'pats': ['1', '_X'], 'prios': [1, 9, 99, 100],
        'labels': [None]}))
    for n in (1, 2, 3):
        out.append(('pats%d' % n, one, {
            'n': n, 'pats': PATS, 'prios': [1], 'labels': [None]}))
    for n in (1, 2, 3):
        out.append(('prios%d' % n, one, {
            'n': n, 'pats': few if n < 3 else ['_X', '_[0-9]', '2'],
            'prios': [1, 2, 3], 'labels': [None, 'l']}))
    if big:
        out.append(('pats4', one, {
            'n': 4, 'pats': ['2', '12', '_X', '_[0-9]', '_[23]', '_[3-2]'],
            'prios': [1, 2], 'labels': [None]}))
    for n, m in ((0, 1), (1, 1), (2, 1), (1, 2)):
        out.append(('two%d%d' % (n, m), two, {'n': n, 'm': m}))
    for n in (2, 3):
        out.append(('includes%d' % n, includes, {'n': n}))
    for n in (1, 2, 3) if big else (1, 2):
        out.append(('data%d' % n, data, {'n': n}))
    return out
