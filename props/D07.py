"""D07: the [general] and [globals] contexts."""
from props import dp
from props.common import fresh, msgs, raised

BOUNDS = {
    'quick': '0..4 section headers, each general, globals or any one-letter '
             'name out of three, each followed by a setting or not; any two '
             'of them at any of five places among eight others, in one file or two',
    'thorough': '0..5 section headers',
}
OUTSIDE = 'more sections'
COVERS = ('W_CONF_CTX_DUPE', 'E_DP_GLOBALS_DUPE', 'H_DP_GENERAL_MISPLACED',
          'H_DP_GLOBALS_MISPLACED', 'clean', 'missing')
setup = dp.warm


def run(ctx, n, fixed=None):
    names, sets = [], []
    for i in range(n):
        name = ctx.choice('name%d' % i, ['general', 'globals', '*'])
        if name == '*':
            name = ctx.str('ctx%d' % i, 1, 'abg')
        names.append(name)
        sets.append(ctx.bool('set%d' % i))
    judge(ctx, names, sets, None)


def many(ctx, two):
    """Two headers among others."""
    names = ['general', 'globals', 'a', 'b', 'c', 'a', 'd', 'general_']
    at = [ctx.choice('at0', [0, 1, 2, 4, 8]),
          ctx.choice('at1', [1, 3, 5, 9])]
    for i in (0, 1):
        names[at[i]:at[i]] = [ctx.choice('name%d' % i, [
            'general', 'globals', 'General', 'GLOBALS', 'e'])]
    if ctx.choice('drop', [False, True]):
        names = names[2:]
    judge(ctx, names, [True] * len(names),
          ctx.choice('cut', [1, 2, 5]) if two else None)


def judge(ctx, names, sets, cut):
    """cut: the sections from there on stand in another file."""
    lines = []
    n = len(names)
    first = {}
    files = {'m': lines}
    file = 'm'
    said = []
    general = glob = None
    contexts = []           # (name, line, [line of setting])
    seen = {}
    for i in range(n):
        name = names[i]
        if i == cut:
            lines.append(b'#include f\n')
            lines = files['f'] = []
            file = 'f'
        lines.append(('[' + name + ']\n').encode('ascii'))
        lineno = len(lines)
        cur = []
        if name == 'general':
            if general is not None:
                said.append(('W_CONF_CTX_DUPE', file, lineno))
                cur = general
            else:
                if glob is not None or contexts:
                    said.append(('H_DP_GENERAL_MISPLACED', file, lineno))
                general = cur
                first['W_CONF_CTX_DUPE'] = (file, lineno)
        elif name == 'globals':
            if glob is not None:
                said.append(('E_DP_GLOBALS_DUPE', file, lineno))
            else:
                if general is None or contexts:
                    said.append(('H_DP_GLOBALS_MISPLACED', file, lineno))
                glob = cur
                first['E_DP_GLOBALS_DUPE'] = (file, lineno)
        elif name in seen:
            cur = seen[name]
        else:
            seen[name] = cur
            contexts.append((name, cur))
        if sets[i]:
            if name == 'general' or name == 'globals':
                key = ctx.str('key%d' % i, 1, 'kK') if n < 7 else 'k'
                lines.append((key + '=v%d\n' % i).encode('ascii'))
                cur.append((key, 'v%d' % i))
            else:
                lines.append(b'exten => %d,1,NoOp()\n' % i)
                cur.append(str(i))
    if contexts:
        file = None         # that of any of the contexts
        if general is None:
            said.append(('H_DP_GENERAL_MISPLACED', file, 0))
        if glob is None:
            said.append(('H_DP_GLOBALS_MISPLACED', file, 0))
            ctx.cover('missing')
    fresh()
    plan = dp.load(files)
    got = [(c.name, [e.pattern.raw for e in c]) for c in plan.contexts]
    ctx.check(got == contexts, 'contexts', (got, contexts))
    got = [(v.variable, v.value) for v in plan.general]
    ctx.check(got == (general or []), 'general', (got, general))
    got = [(v.variable, v.value) for v in plan.globals]
    ctx.check(got == (glob or []), 'globals', (got, glob))
    mine = [m if m[2] else (m[0], None, 0) for m in raised() if not m[0].startswith(('W_WSV', 'H_WSV'))]
    ctx.observe('raised', mine)
    for m in mine:
        ctx.cover(m[0])
    if not mine:
        ctx.cover('clean')
    ctx.check(sorted(mine) == sorted(said), 'messages', (mine, said))
    for name in ('W_CONF_CTX_DUPE', 'E_DP_GLOBALS_DUPE'):
        for m in msgs(name):
            ctx.check((m.previous.filename, m.previous.lineno) ==
                      first[name], 'the first one')


def jobs(tier):
    return [('n%d' % n, run, {'n': n})
            for n in range(0, 5 if tier == "quick" else 6)] + \
        [('many%d' % two, many, {'two': two}) for two in (False, True)]
