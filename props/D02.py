"""D02: priorities: numbering, order, duplicates."""
from props import dp
from props.common import fresh, raised_prev as raised

BOUNDS = {
    'quick': '1..3 extension lines, each with one of four or five patterns or '
             '"same", and with priority n or any one-digit number; 4 lines '
             'of one pattern; up to 4 lines over two contexts of which one '
             'may be opened twice; any two lines with any of five priorities '
             'behind one of 9..32767, and at any places among twelve others; '
             'any two numbers of up to five digits',
    'thorough': '1..4 lines with four patterns, 5 lines of one pattern; '
                'any three numbers of two or four digits',
}
OUTSIDE = 'longer contexts; more numbers of several digits'
COVERS = ('E_DP_PRIO_MISSING', 'E_DP_PRIO_INVALID', 'E_DP_PRIO_DUPE',
          'W_DP_PRIO_BADORDER', 'E_DP_PAT_MISSING', 'next', 'clean')
setup = dp.warm
CANON = {'_1': '1', '_[0-9]': '_X', '1-': '1'}
EQ = {'_[0-9]': '_X', '1-': '1'}


class Model(object):
    def __init__(self):
        self.last = None        # last priority in the file
        self.ctx = {}           # name -> [(pattern, prio, line)]
        self.order = []
        self.cur = None
        self.said = []

    def open(self, name):
        if name not in self.ctx:
            self.ctx[name] = []
            self.order.append(name)
        self.cur = self.ctx[name]
        self.cont = False       # did this opening see a priority?

    def line(self, lineno, pattern, prio):
        def say(name, prev=None):
            self.said.append((name, 'm', lineno, prev))
        cur = self.cur
        if pattern is None:
            if not cur:
                return say('E_DP_PAT_MISSING')
            pattern = cur[-1][0]
        eq = EQ.get(pattern, pattern)
        if prio == 'n':
            if self.last is None:
                return say('E_DP_PRIO_MISSING')
            if not self.cont or EQ.get(cur[-1][0], cur[-1][0]) != eq:
                say('W_DP_PRIO_BADORDER')
            number = self.last + 1
        else:
            number = int(prio) if len(prio) > 1 else ord(prio) - 48
            if number == 0:
                return say('E_DP_PRIO_INVALID')
            if number != 1:
                mine = [p for q, p, l in cur if EQ.get(q, q) == eq]
                if not mine or (mine[-1] != number and
                                mine[-1] != number - 1):
                    say('W_DP_PRIO_BADORDER')
        self.last = number
        self.cont = True
        canon = CANON.get(pattern, pattern)
        for q, p, l in cur:
            if CANON.get(q, q) == canon and p == number:
                return say('E_DP_PRIO_DUPE', l)
        cur.append((pattern, number, lineno))


def verdict(ctx, lines, model):
    fresh()
    plan = dp.load({'m': [b'[general]\n', b'[globals]\n'] + lines})
    got = [(c.name, [(e.pattern.raw, e.prio, e.where.lineno) for e in c])
           for c in plan.contexts]
    want = [(n, model.ctx[n]) for n in model.order]
    ctx.observe('got', got)
    ctx.check(got == want, 'extensions', (got, want))
    mine = raised(COVERS)
    for m in mine:
        ctx.cover(m[0])
    if not mine:
        ctx.cover('clean')
    ctx.check(sorted(mine) == sorted(model.said), 'messages',
              (mine, model.said))


def encode(pattern, prio):
    if pattern is None:
        return ('same => ' + prio + ',NoOp()\n').encode('ascii')
    return ('exten => ' + pattern + ',' + prio + ',NoOp()\n').encode('ascii')


def one(ctx, n, pats):
    model = Model()
    lines = [b'[a]\n']
    model.open('a')
    for i in range(n):
        pattern = ctx.choice('pat%d' % i, pats)
        prio = ctx.str('prio%d' % i, 1, 'n0123456789')
        if prio == 'n':
            ctx.cover('next')
        lines.append(encode(pattern, prio))
        model.line(len(lines) + 2, pattern, prio)
    verdict(ctx, lines, model)


def two(ctx, counts, names):
    model = Model()
    lines = []
    k = 0
    for name, cnt in zip(names, counts):
        lines.append(('[%s]\n' % name).encode('ascii'))
        model.open(name)
        for i in range(cnt):
            pattern = ctx.choice('pat%d' % k, ['1', None])
            prio = ctx.str('prio%d' % k, 1, 'n123')
            lines.append(encode(pattern, prio))
            model.line(len(lines) + 2, pattern, prio)
            k += 1
    verdict(ctx, lines, model)


def high(ctx, base):
    """Priorities of several digits."""
    model = Model()
    lines = [b'[a]\n']
    model.open('a')
    prios = ['n', str(base - 1), str(base), str(base + 1), '1',
             str(base) + '0']
    for i in range(4):
        pattern = ctx.choice('pat%d' % i, ['1', '_X'] if i < 3 else [None])
        prio = str(base) if not i else ctx.choice('prio%d' % i, prios)
        lines.append(encode(pattern, prio))
        model.line(len(lines) + 2, pattern, prio)
    verdict(ctx, lines, model)


def wide(ctx, digits):
    """Any number of several digits."""
    model = Model()
    lines = [b'[a]\n']
    model.open('a')
    for i, k in enumerate(digits):
        pattern = ctx.choice('pat%d' % i, ['1', '_X'])
        prio = ctx.str('prio%d' % i, k, '0123456789') if k else 'n'
        lines.append(encode(pattern, prio))
        model.line(len(lines) + 2, pattern, prio)
    verdict(ctx, lines, model)


def many(ctx, names):
    model = Model()
    lines = []
    at = {}
    n = 12
    for i in (0, 1):
        at[ctx.choice('at%d' % i, list(range(1, 7)) if not i else
                      list(range(7, n + 1)))] = (
            ctx.choice('pat%d' % i, ['1', None, '_X']),
            ctx.choice('prio%d' % i, ['n', '1', '2', '6', '12']))
    for i in range(n + 1):
        if i * len(names) // (n + 1) != (i - 1) * len(names) // (n + 1):
            name = names[i * len(names) // (n + 1)]
            lines.append(('[%s]\n' % name).encode('ascii'))
            model.open(name)
        pattern, prio = at.get(i, ('1', 'n' if i else '1'))
        lines.append(encode(pattern, prio))
        model.line(len(lines) + 2, pattern, prio)
    verdict(ctx, lines, model)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 5 if big else 4):
        out.append(('one%d' % n, one,
                    {'n': n, 'pats': ['1', '_X', None, '2']}))
    for n in range(1, 4):
        out.append(('spell%d' % n, one,
                    {'n': n, 'pats': ['1', '_1', '1-', '_[0-9]', '_X']}))
    out.append(('few', one, {'n': 5 if big else 4, 'pats': ['1', None]}))
    for base in (9, 10, 99, 100, 999, 32767):
        out.append(('high%d' % base, high, {'base': base}))
    for digits in ((2,), (2, 2), (1, 2), (2, 1), (3, 0), (3, 3), (2, 0, 2),
                   (5, 5)) + (((2, 2, 2), (4, 4, 4)) if big else ()):
        out.append(('wide' + ''.join(map(str, digits)), wide,
                    {'digits': digits}))
    for names in ('a', 'aba'):
        out.append(('many' + names, many, {'names': names}))
    for counts in ((1, 1), (2, 1), (1, 2), (2, 2)):
        out.append(('two%d%d' % counts, two,
                    {'counts': counts, 'names': 'ab'}))
    for counts in ((1, 1, 1), (0, 1, 2), (1, 0, 1), (2, 1, 1)):
        out.append(('re%d%d%d' % counts, two,
                    {'counts': counts, 'names': 'aba'}))
    return out
