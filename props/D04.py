"""D04: every goto destination is looked up: contexts, includes, labels."""
from props import dp, pat
from props import common
from props.common import fresh

BOUNDS = {
    'quick': 'a goto with 1..3 arguments - any context of one or two '
             'letters, any extension of 1..2 characters out of nine, any '
             'label or number of 1..2 characters out of eight, or variables '
             'in each place - in dialplans of 1..3 contexts, with up to '
             'three more extensions and any includes between them; chains of '
             '12 contexts that include each other, with the goto and what it '
             'names anywhere; contexts with 12 patterns and 12 priorities; '
             'a variable beside up to two digits for any priority of '
             '1..130',
    'thorough': 'the same with more extensions per context',
}
OUTSIDE = 'larger dialplans'
COVERS = ('E_DP_GOTO_CONTEXT_NOLABEL', 'E_DP_GOTO_NOCONTEXT',
          'E_DP_GOTO_NOLABEL', 'W_DP_GOTO_CONTEXT_NOEXTEN', 'found',
          'invalid', 'included')
setup = dp.warm


def raised():
    return [m for m in common.raised() if 'GOTO' in m[0]]


class Plan(object):
    def __init__(self):
        self.ctx = {}       # name -> [(pattern, prio, label)]
        self.inc = {}       # name -> [name]

    def reach(self, name, seen):
        if name in seen or name not in self.ctx:
            return seen
        seen.append(name)
        for other in self.inc[name]:
            self.reach(other, seen)
        return seen

    def has(self, name, ext, prio):
        """prio: int, or str (label), or (prefix, suffix)"""
        for c in self.reach(name, []):
            for pattern, number, label in self.ctx[c]:
                if not pat.matches(pattern, ext):
                    continue
                if isinstance(prio, int):
                    ok = number == prio
                elif isinstance(prio, tuple):
                    ok = (wild(prio, str(number)) or
                          (label is not None and wild(prio, label)))
                else:
                    ok = label == prio
                if ok:
                    return c
        return None

    def label(self, names, prio):
        for c in names:
            for pattern, number, label in self.ctx[c]:
                if label == prio:
                    return True
        return False


def wild(w, text):
    return (len(text) >= len(w[0]) + len(w[1]) and text.startswith(w[0]) and
            text.endswith(w[1]))


def expect(plan, here, context, ext, prio, example, ctx):
    """-> name of the message, or None. A part that is None is missing, one
    that is () is a variable, and a tuple is a variable inside text."""
    if context is None:
        context = here
    if ext is None:
        ext = example
    if isinstance(prio, str) and all(c in '0123456789' for c in prio):
        prio = int(prio)
    if isinstance(context, tuple):
        if isinstance(prio, str) and not plan.label(list(plan.ctx), prio):
            return 'E_DP_GOTO_NOLABEL'
        return None
    if context not in plan.ctx:
        return 'E_DP_GOTO_NOCONTEXT'
    if isinstance(ext, tuple):
        if (isinstance(prio, str) and
                not plan.label(plan.reach(context, []), prio)):
            return 'E_DP_GOTO_CONTEXT_NOLABEL'
        return None
    found = plan.has(context, ext, prio)
    if found:
        ctx.cover('found' if found == context else 'included')
        return None
    if (isinstance(prio, int) and ext != 'i' and
            plan.has(context, 'i', 1)):
        ctx.cover('invalid')
        return None
    return 'W_DP_GOTO_CONTEXT_NOEXTEN'


def text(part, var):
    if isinstance(part, tuple):
        if not part:
            return '${' + var + '}'
        return part[0] + '${' + var + '}' + part[1]
    return part


def verdict(ctx, plan, order, parts, start='s', times=''):
    """Write the plan, the goto at the begin of the first context."""
    args = ','.join(text(p, v) for p, v in zip(parts, 'cep')
                    if p is not None)
    lines = [b'[general]\n', b'[globals]\n']
    for name in order:
        lines.append(('[' + name + ']\n').encode('ascii'))
        for k, (pattern, prio, label) in enumerate(plan.ctx[name]):
            row = 'exten => ' + pattern + ',' + str(prio)
            if label is not None:
                row += '(' + label + ')'
            if name == order[0] and k == 0:
                row += ',Goto(' + args + ')\n'
                where = len(lines) + 1
            else:
                row += ',NoOp()\n'
            lines.append(row.encode('ascii'))
        for other in plan.inc[name]:
            lines.append(('include => ' + other + times +
                          '\n').encode('ascii'))
    fresh()
    loaded = dp.load({'m': lines})
    ctx.check(raised() == [], 'nothing while loading', raised())
    loaded.walk_jump_destinations()
    got = raised()
    ctx.observe('got', got)
    name = expect(plan, order[0], parts[0], parts[1], parts[2], start, ctx)
    if name:
        ctx.cover(name)
    ctx.check(got == ([(name, 'm', where)] if name else []), 'messages',
              (args, got, name))


def pairs(ctx, tag, n, pats):
    """Extensions with priorities 1 and 2 each."""
    out = []
    for i in range(n):
        p = ctx.choice('%sp%d' % (tag, i), pats)
        for r in out:
            ctx.assume(r[0] != p)
        out.append((p, 1, None))
        if ctx.bool('%sx%d' % (tag, i)):
            out.append((p, 2, ctx.choice('%sl%d' % (tag, i),
                                         [None, 'l', 'lk'])))
    return out


def const(ctx, nargs, n, elen, plen, split):
    plan = Plan()
    first = [('s', 1, None)]
    other = pairs(ctx, 'b', n, ['1', '_X', '_1.', 'i', '_[1-3]!', '_.'])
    if split:
        plan.ctx = {'a': first, 'b': other}
        plan.inc = {'a': ['b'] if ctx.bool('inc') else [], 'b': []}
        order = ['a', 'b']
    else:
        plan.ctx = {'a': first + other}
        plan.inc = {'a': []}
        order = ['a']
    context = ctx.str('c', 1, 'abz') if nargs > 2 else None
    ext = ctx.str('e', elen, '123si-x09') if nargs > 1 else None
    if ext is not None:
        ctx.assume(ext[0] != '-')
    prio = ctx.str('p', plen, '0123lkmi')
    verdict(ctx, plan, order, [context, ext, prio])


def include(ctx, edges, nargs):
    """Three contexts, any includes."""
    plan = Plan()
    plan.ctx = {'a': [('s', 1, None)],
                'b': [('1', 1, 'l')],
                'c': [('_X', 1, 'k'),
                      ('i' if ctx.bool('inv') else '5', 1, None)]}
    plan.inc = {'a': [], 'b': [], 'c': []}
    for e in edges:
        if ctx.bool('e' + e):
            plan.inc[e[0]].append(e[1])
    context = ctx.str('c', 1, 'abcz') if nargs > 2 else None
    ext = ctx.choice('e', ['1', '2', '12', ()])
    prio = ctx.str('p', 1, '12lkm')
    times = ctx.choice('times', ['', ',9:00-17:00,mon-fri,*,*',
                                 '|9:00-17:00|mon-fri|*|*'])
    if times[0:1] == '|':
        # That was Asterisk 1.4; now it is a part of the name.
        ctx.assume(plan.inc != {'a': [], 'b': [], 'c': []})
        plan.inc = dict((k, [i + times for i in plan.inc[k]])
                        for k in plan.inc)
        times = ''
    verdict(ctx, plan, ['a', 'b', 'c'], [context, ext, prio], times=times)


NAMES = ['a', 'bb', 'c-1', 'd.2', 'Bb', 'long' * 20, 'h', 'i', 'j', 'k', 'l',
         'long' * 20 + 'x']


def deep(ctx, at):
    """What is named stands at some place of a chain of includes."""
    plan = Plan()
    back = ctx.choice('back', [None, 0, 3, 11])
    for i, name in enumerate(NAMES):
        plan.ctx[name] = [('s', 1, None)] if not i else []
        plan.inc[name] = NAMES[i + 1:i + 2]
    if back is not None:
        plan.inc[NAMES[11]] = [NAMES[back]]
    cut = ctx.choice('cut', [None, at])
    if cut:
        plan.inc[NAMES[cut - 1]] = []
    plan.ctx[NAMES[at]] += [('_X.', 1, None), ('_X.', 10, 'ten'),
                            ('123', 100, 'l' * 80)]
    context = ctx.choice('c', [None, 'bb', 'Bb', 'long' * 20, 'l'])
    ext = ctx.choice('e', ['123', '12', '1'])
    prio = ctx.choice('p', ['1', '10', '100', 'ten', 'Ten', 'l' * 80,
                            'l' * 79, '010', '11'])
    verdict(ctx, plan, NAMES, [context, ext, prio])


def wide(ctx, named):
    """Many extensions in one context."""
    plan = Plan()
    pats = ['_%dX' % i for i in range(2, 9)] + ['9', '99', '_99X', '_9X.']
    plan.ctx = {'a': [('s', 1, None)], 'b': []}
    rows = plan.ctx['b' if named else 'a']
    for i, p in enumerate(pats):
        for j in range(1, 4):
            rows.append((p, j, 'l%d' % i if j == 3 else None))
    for j in range(4, 16):
        rows.append(('_5X', j, 'm%d' % j if j % 2 else None))
    plan.inc = {'a': [], 'b': []}
    ext = ctx.str('e', 2, '0159') + ctx.choice('tail', ['', '1', '12'])
    prio = ctx.choice('p', ['1', '3', '4', '15', '16', 'l0', 'l3', 'l8',
                            'l9', 'l10', 'm15', 'm14', 'm5'])
    verdict(ctx, plan, ['a', 'b'], ['b' if named else None, ext, prio])


def variable(ctx, nargs):
    plan = Plan()
    plan.ctx = {'a': [('s', 1, None)],
                'b': [('1', 1, None), ('1', 2, ctx.choice(
                    'lab', [None, 'l', 'lk', 'k2', '12']))],
                'c': [('2', 1, 'm')]}
    plan.inc = {'a': ['b'] if ctx.bool('inc') else [], 'b': [], 'c': []}
    context = ext = None
    if nargs > 2:
        context = ctx.choice('c', [(), 'a', 'b', 'z', ('a', '')])
    if nargs > 1:
        ext = ctx.choice('e', [(), '1', '2', ('', '1')])
    prio = ctx.choice('p', [(), 'l', 'm', 'z', '1', '3', ('l', ''),
                            ('', 'k'), ('1', ''), ('', '2'), ('k', '2'),
                            ('.', ''), ('', 'None')])
    if prio == ():
        prio_ = ('', '')
        parts = [context, ext, prio_]
    else:
        parts = [context, ext, prio]
    verdict(ctx, plan, ['a', 'b', 'c'], parts)


def digits(ctx, nargs):
    """Variables beside numbers, priorities of several digits."""
    plan = Plan()
    number = ctx.int('number', 1, 130)
    plan.ctx = {'a': [('s', 1, None)],
                'b': [('1', number, ctx.choice('lab', [None, 'x-12']))]}
    plan.inc = {'a': ['b'], 'b': []}
    head = ctx.str('head', ctx.choice('n', [0, 1]), '123')
    tail = ctx.str('tail', ctx.choice('m', [0, 1]), '023')
    parts = [None, '1', (head, tail)]
    if nargs > 2:
        parts[0] = 'b'
    verdict(ctx, plan, ['a', 'b'], parts)


def example(ctx, start, form):
    """Jumps within the pattern itself."""
    plan = Plan()
    plan.ctx = {'a': [(start, 1, None), (start, 2, 'l')]}
    plan.inc = {'a': []}
    if ctx.bool('other'):
        plan.ctx['a'].append(('99', 1, 'k'))
    prio = ctx.str('p', 1, '123lkm')
    args = form % ('@',)
    fresh()
    lines = [b'[general]\n', b'[globals]\n', b'[a]\n']
    for k, (p, n, l) in enumerate(plan.ctx['a']):
        app = 'NoOp()'
        if k == 0:
            app = 'Goto(' + args.replace('@', prio) + ')'
        lines.append(('exten => ' + p + ',' + str(n) +
                      ('(' + l + ')' if l else '') + ',' + app +
                      '\n').encode('ascii'))
    loaded = dp.load({'m': lines})
    ctx.check(raised() == [], 'nothing while loading', raised())
    loaded.walk_jump_destinations()
    ok = prio == '1' or prio == '2' or prio == 'l'
    # The other extension is not the one that we jump to.
    got = [m[0] for m in raised()]
    ctx.observe('got', got)
    if ok:
        ctx.check(got == [], 'found in its own extension', got)
    else:
        ctx.check(got == ['W_DP_GOTO_CONTEXT_NOEXTEN'], 'not found', got)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for nargs in (1, 2, 3):
        for split in (False, True):
            for n in ((1, 2) if big else (1,)):
                for elen in (1, 2):
                    for plen in (1, 2):
                        if nargs == 1 and elen == 2:
                            continue
                        if n == 2 and elen + plen > 2:
                            continue
                        out.append((
                            'const%d%s%d-%d%d' % (
                                nargs, 'ny'[split], n, elen, plen), const,
                            {'nargs': nargs, 'n': n, 
                             'elen': elen, 'plen': plen, 'split': split}))
    out.append(('include', include,
                {'edges': ['ab', 'ac', 'bc', 'cb', 'ba'], 'nargs': 2}))
    out.append(('include3', include,
                {'edges': ['bc', 'cb', 'ca', 'bz'], 'nargs': 3}))
    for at in (1, 2, 6, 11):
        out.append(('deep%d' % at, deep, {'at': at}))
    for named in (False, True):
        out.append(('wide%d' % named, wide, {'named': named}))
    for nargs in (1, 2, 3):
        out.append(('var%d' % nargs, variable, {'nargs': nargs}))
        if nargs > 1:
            out.append(('digits%d' % nargs, digits, {'nargs': nargs}))
    for k, start in enumerate(('_X.', '_2XX', '_[2-5]!', '77', '_Z')):
        for j, form in enumerate(('%s', '${EXTEN},%s', 'a,${EXTEN},%s')):
            out.append(('ex%d%d' % (k, j), example,
                        {'start': start, 'form': form}))
    return out
