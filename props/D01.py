"""D01: the fields of an extension line."""
from props import dp
from props.common import fresh, names, count, msgs

BOUNDS = {
    'quick': 'every value of 0..6 characters over {s 1 0 9 n , ( ) _ X blank '
             'a and U+00B2} followed by nothing, by ",NoOp()" or by "1,NoOp()"'
             '; 0..4 arbitrary printable characters as pattern, as priority '
             'and as label; 0..3 arbitrary ones as the application; two such '
             'characters before or behind up to 300 others in each place',
    'thorough': 'values of up to 7 characters, fields of up to 5',
}
OUTSIDE = 'longer values; what the application does with its arguments; ' \
    'patterns made of dashes'
COVERS = ('ok', 'same', 'label', 'nopat', 'noprio', 'badprio', 'badlabel',
          'zero', 'hint')
setup = dp.warm

HEAD = [b'[general]\n', b'[globals]\n', b'[ctx]\n', b'exten => 7,4,NoOp()\n']


def spec(kind, value):
    """-> (None, messages) or ((pattern, prio, label, app), [])"""
    if kind == 'exten':
        k = value.find(',')
        if k < 0:
            return None, ['E_DP_PRIO_MISSING']
        pattern, rest = value[:k], value[k + 1:]
        if not pattern:
            return None, ['E_DP_PAT_MISSING']
    else:
        pattern, rest = '7', value
    k = rest.find(',')
    prio, app = (rest, '') if k < 0 else (rest[:k], rest[k + 1:])
    label = None
    k = prio.find('(')
    if k >= 0:
        label = prio[k + 1:]
        prio = prio[:k]
    if prio == 'hint':
        return None, ['I_NOTIMPL_HINT']
    if prio == 'n':
        number = 5
    else:
        number = 0
        for ch in prio:
            if not ('0' <= ch and ch <= '9'):
                return None, ['E_DP_PRIO_INVALID']
            number = number * 10 + ord(ch) - 48
        if not prio:
            return None, ['E_DP_PRIO_INVALID']
    if label is not None:
        if label[-1:] != ')':
            return None, ['E_DP_LABEL_INVALID']
        label = label[:-1]
    if number < 1:
        return None, ['E_DP_PRIO_INVALID']
    if number == 4 and pattern.replace('-', '') == '7':
        return None, ['E_DP_PRIO_DUPE']
    return (pattern, number, label, app), []


SEEN = ('E_DP_PRIO_MISSING', 'E_DP_PAT_MISSING', 'E_DP_PRIO_INVALID',
        'E_DP_LABEL_INVALID', 'E_DP_PRIO_DUPE', 'I_NOTIMPL_HINT',
        'E_CONF_KEY_INVALID')


def verdict(ctx, kind, value):
    fresh()
    line = (kind + ' => ' + value + '\n').encode('utf-8')
    ctx.assume(value[-1:] not in (' ', '\t') or value == '')
    ctx.assume(value[:1] not in (' ', '\t') or value == '')
    plan = dp.load({'m': HEAD + [line]})
    exts = [e for e in plan.contexts[0] if e.where.lineno == 5]
    want, warn = spec(kind, value)
    ctx.observe('exts', [[e.pattern.raw, e.prio, e.label, e.app.raw]
                         for e in exts])
    ctx.observe('names', names())
    for name in SEEN:
        ctx.check(count(name) == (1 if name in warn else 0), name,
                  (names(), want))
        for m in msgs(name):
            ctx.check(m.where.lineno == 5, 'position of ' + name)
    ctx.check(len(plan.contexts[0]) == (2 if want else 1), 'accepted')
    if want is None:
        ctx.cover({'E_DP_PRIO_MISSING': 'noprio', 'I_NOTIMPL_HINT': 'hint',
                   'E_DP_PRIO_INVALID': 'badprio',
                   'E_DP_LABEL_INVALID': 'badlabel',
                   'E_DP_PAT_MISSING': 'nopat',
                   'E_DP_PRIO_DUPE': 'dupe'}[warn[0]])
        if warn == ['E_DP_PRIO_INVALID'] and ',0' in value:
            ctx.cover('zero')
        return
    ctx.cover('ok' if kind == 'exten' else 'same')
    e = exts[0]
    ctx.check(e.pattern.raw == want[0], 'pattern', want)
    ctx.check(e.prio == want[1], 'priority', want)
    if want[2]:
        ctx.cover('label')
    ctx.check((e.label or '') == (want[2] or ''), 'label', want)
    ctx.check(e.app.raw == want[3], 'application', want)
    bad = [n for n in names() if n[:5] == 'E_DP_' or n[:7] == 'E_CONF_']
    ctx.check(not bad, 'no other errors', bad)


def value(ctx, kind, n, tail):
    verdict(ctx, kind, ctx.str('v', n, 's109n,()_X a\u00b2') + tail)


def fields(ctx, a, b, c, tail):
    pat = ctx.str('pat', a, 'printable:-,;\\')
    if a:
        ctx.assume(pat.replace('-', '') != '')
    else:
        pat = 's'
    prio = ctx.str('prio', b, 'printable:-,;\\') if b else 'n'
    label = '(' + ctx.str('label', c, 'printable:-,;\\') + ')' if c else ''
    verdict(ctx, 'exten', pat + ',' + prio + label + tail)


def app(ctx, kind, n):
    verdict(ctx, kind, ('s,' if kind == 'exten' else '') + 'n,' +
            ctx.str('app', n, 'printable:-;\\'))


LONG = ('1234567890', 'ab_c' * 20, 'X' * 250, '0' * 30)


def far(ctx, place, fill, last):
    """Long fields."""
    text = ctx.str('text', 2, 'printable:-,;\\')
    text = LONG[fill] + text if last else text + LONG[fill]
    if place == 'pat':
        verdict(ctx, 'exten', text + ',n(l),NoOp()')
    elif place == 'prio':
        verdict(ctx, 'exten', 's,' + text + ',NoOp()')
    elif place == 'label':
        verdict(ctx, 'exten', 's,n(' + text + '),NoOp()')
    elif place == 'same':
        verdict(ctx, 'same', 'n(' + text + ')')
    else:
        verdict(ctx, 'exten', 's,2(l),' + text)


def hint(ctx, n):
    verdict(ctx, 'exten', 's,' + ctx.str('h', n, 'hint,') + ',x')


def jobs(tier):
    big = tier != 'quick'
    out = []
    for kind in ('exten', 'same'):
        for n in range(0, 8 if big else 7):
            for tail in ('', ',NoOp()', '1,NoOp()'):
                if tail and n > (6 if big else 5):
                    continue
                out.append(('value%s%d%s' % (kind, n, tail), value,
                            {'kind': kind, 'n': n, 'tail': tail}))
        for n in range(0, 5 if big else 4):
            out.append(('app%s%d' % (kind, n), app, {'kind': kind, 'n': n}))
    for place in ('pat', 'prio', 'label', 'same', 'app'):
        for fill in range(len(LONG)):
            for last in (False, True):
                out.append(('far%s%d%d' % (place, fill, last), far, {
                    'place': place, 'fill': fill, 'last': last}))
    top = 5 if big else 4
    for n in range(1, top + 1):
        out.append(('pat%d' % n, fields,
                    {'a': n, 'b': 0, 'c': 0, 'tail': ',NoOp()'}))
        out.append(('prio%d' % n, fields,
                    {'a': 0, 'b': n, 'c': 0, 'tail': ',NoOp()'}))
        out.append(('label%d' % n, fields,
                    {'a': 0, 'b': 0, 'c': n, 'tail': ',NoOp()'}))
    out.append(('hint', hint, {'n': 4}))
    return out
