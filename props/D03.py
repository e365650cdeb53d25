"""D03: labels: recorded per extension, duplicates reported and dropped."""
from props import dp
from props.common import fresh, raised_prev

BOUNDS = {
    'quick': '1..3 extension lines of one context with any of five patterns '
             '(or "same"), with or without one of two labels, the label '
             'also any one to three characters; two contexts of two lines each; labels '
             'at any two of 14 lines of two extensions, any two of twelve '
             'labels of up to 80 characters',
    'thorough': '1..4 lines',
}
OUTSIDE = 'longer contexts; other labels of more than three characters'
COVERS = ('E_DP_LABEL_DUPE', 'clean', 'label')
setup = dp.warm
CANON = {'_1': '1', '_[0-9]': '_X', '1-': '1'}


def verdict(ctx, rows, said, order):
    """rows: {context: [(raw pattern, prio, label)]}"""
    fresh()
    lines = [b'[general]\n', b'[globals]\n']
    for text in order:
        lines.append(text)
    plan = dp.load({'m': lines})
    for c in plan.contexts:
        got = [(e.pattern.raw, e.prio, e.label or None) for e in c]
        ctx.observe('got', got)
        ctx.check(got == rows[c.name], 'extensions', (got, rows[c.name]))
    mine = raised_prev(['E_DP_LABEL_DUPE', 'E_DP_PRIO_DUPE'])
    ctx.check(mine == said, 'messages', (mine, said))
    ctx.cover('E_DP_LABEL_DUPE' if said else 'clean')
    return plan


def one(ctx, n, pats, labels, second=False, down=False):
    rows, order, said = {'a': []}, [b'[a]\n'], []
    seen = {}
    alive = []
    for i in range(n):
        if second and i == n - 2:
            rows['b'] = []
            order.append(b'[b]\n')
            seen = {}
        cur = rows['b' if 'b' in rows else 'a']
        pattern = ctx.choice('pat%d' % i, pats if cur else
                             [p for p in pats if p is not None])
        prio = 30 - 3 * i if down else 3 * i + 2
        label = ctx.choice('label%d' % i, labels)
        if label is not None and label[0:1] == '?':
            label = ctx.str('lab%d' % i, len(label), 'ascii:-()\n\r;, ')
        if pattern is None:
            pattern = cur[-1][0]
            text = 'same => '
        else:
            text = 'exten => ' + pattern + ','
        text += str(prio)
        if label is not None:
            text += '(' + label + ')'
            ctx.cover('label')
        text += ',NoOp()\n'
        order.append(text.encode('ascii'))
        key = (CANON.get(pattern, pattern), label)
        if label and key in seen:
            said.append(('E_DP_LABEL_DUPE', 'm', len(order) + 2, seen[key]))
            label = None
        elif label:
            seen[key] = len(order) + 2
            alive.append(label)
        cur.append((pattern, prio, label or None))
    plan = verdict(ctx, rows, said, order)
    for label in alive:
        ctx.check(plan.has_label(label), 'the plan knows the label')
    ctx.check(not plan.has_label('zzzz'), 'no other label')


LONG = ('begin', 'Begin', 'BEGIN', 'begin2', 'begin_', 'egin', 'b-egin',
        'x' * 79, 'x' * 80, 'x' * 78 + 'y', '1', '\xe9')


def many(ctx, other):
    rows, order, said = {'a': []}, [b'[a]\n'], []
    at = {}
    for i in (0, 1):
        at[ctx.choice('at%d' % i, list(range(0, 7)) if not i else
                      list(range(7, 14)))] = ctx.choice('label%d' % i, LONG)
    seen = {}
    for i in range(14):
        pattern = '_X.' if other and i > 9 else '1'
        prio = i + 1
        label = at.get(i)
        text = 'exten => %s,%d%s,NoOp()\n' % (
            pattern, prio, '(' + label + ')' if label else '')
        order.append(text.encode('utf-8'))
        if label:
            key = (pattern, label)
            if key in seen:
                said.append(('E_DP_LABEL_DUPE', 'm', len(order) + 2,
                             seen[key]))
                label = None
            else:
                seen[key] = len(order) + 2
        rows['a'].append((pattern, prio, label))
    plan = verdict(ctx, rows, said, order)
    for label in LONG:
        ctx.check(plan.has_label(label) == (label in at.values()), 'known')


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 5 if big else 4):
        out.append(('one%d' % n, one,
                    {'n': n, 'pats': ['1', '_1', '_X', '_[0-9]', None],
                     'labels': [None, 'l', 'k']}))
        out.append(('down%d' % n, one,
                    {'n': n, 'pats': ['1', '_1', None], 'down': True,
                     'labels': [None, 'l', 'k']}))
    for n in range(1, 4):
        out.append(('any%d' % n, one,
                    {'n': n, 'pats': ['1', '1-', '2'],
                     'labels': ['l', '?']}))
    for labels in (['lab', '???'], ['??'], ['ab', '?', '??'], ['1', '??']):
        out.append(('spelt-%s' % '-'.join(labels), one, {
            'n': 2, 'pats': ['1', '_1', '2'], 'labels': labels}))
    for other in (False, True):
        out.append(('many%d' % other, many, {'other': other}))
    out.append(('two', one, {'n': 4, 'pats': ['1', None],
                             'labels': [None, 'l', 'k'], 'second': True}))
    out.append(('empty', one, {'n': 2, 'pats': ['1', '2'],
                               'labels': [None, '', 'l']}))
    return out
