"""D08: contexts: opened, opened again, and what is in them."""
from props import dp
from props.common import fresh, raised

BOUNDS = {
    'quick': '1..3 openings of contexts with any one-character names out of '
             'seven, each header with or without options and comment, each '
             'with up to two lines out of eight kinds: extensions, includes '
             'of any one-character name, notimplemented and unknown settings; '
             'eight openings of which two have any of eleven names of up to 80 '
             'characters, in one file or two',
    'thorough': 'the same with up to 4 openings of one line each',
}
OUTSIDE = 'other longer names; more openings'
COVERS = ('again', 'I_NOTIMPL_SWITCH', 'I_NOTIMPL_IGNOREPAT',
          'E_CONF_KEY_INVALID', 'H_CONF_NO_ARROW', 'I_NOTIMPL_HINT',
          'E_CONF_CTX_MISSING', 'I_NOTIMPL_TEMPLATES')
setup = dp.warm
KINDS = ['exten', 'include', 'switch', 'ignorepat', 'hint', 'other', 'same',
         'none']


def run(ctx, kinds, heads, orphan=False, alpha='aA1-gz.'):
    lines = [b'[general]\n', b'[globals]\n']
    if orphan:
        lines = []
    said = []
    names = []          # in order
    exts = []           # [(pattern, prio, line)] per name
    incs = []
    k = 0
    if orphan:
        lines.append(b'exten => 1,1,NoOp()\n')
        said.append(('E_CONF_CTX_MISSING', 'm', 1))
        lines += [b'[general]\n', b'[globals]\n']
    for i, count in enumerate(kinds):
        name = ctx.str('name%d' % i, 1, alpha)
        head = ctx.choice('head%d' % i, heads)
        lines.append(('[' + name + ']' + head + '\n').encode('ascii'))
        if '(' in head:
            said.append(('I_NOTIMPL_TEMPLATES', 'm', len(lines)))
        pos = None
        for j, n in enumerate(names):
            if n == name:
                pos = j
                ctx.cover('again')
        if pos is None:
            pos = len(names)
            names.append(name)
            exts.append([])
            incs.append([])
        for _ in range(count):
            kind = ctx.choice('kind%d' % k, KINDS)
            arrow = ctx.choice('arrow%d' % k, [' => ', '='])
            lineno = len(lines) + 1
            if arrow == '=' and kind not in ('other', 'none'):
                said.append(('H_CONF_NO_ARROW', 'm', lineno))
            if kind == 'exten':
                text = 'exten' + arrow + '%d,1,NoOp()' % k
                exts[pos].append((str(k), 1, lineno))
            elif kind == 'same':
                text = 'same' + arrow + '%d,NoOp()' % (k + 2)
                if exts[pos]:
                    exts[pos].append((exts[pos][-1][0], k + 2, lineno))
                else:
                    said.append(('E_DP_PAT_MISSING', 'm', lineno))
            elif kind == 'include':
                inc = ctx.str('inc%d' % k, 1, 'abgz')
                text = 'include' + arrow + inc
                incs[pos].append((inc, lineno))
            elif kind == 'hint':
                text = 'exten' + arrow + '5,hint,SIP/x'
                said.append(('I_NOTIMPL_HINT', 'm', lineno))
            elif kind == 'other':
                text = ctx.choice('key%d' % k, [
                    'Exten', 'includes', 'x']) + arrow + 'y'
                said.append(('E_CONF_KEY_INVALID', 'm', lineno))
            elif kind == 'none':
                text = '; nothing'
            else:
                text = kind + arrow + 'x'
                said.append(('I_NOTIMPL_' + kind.upper(), 'm', lineno))
            lines.append((text + '\n').encode('ascii'))
            k += 1
    fresh()
    plan = dp.load({'m': lines})
    got = [c.name for c in plan.contexts]
    ctx.observe('got', got)
    ctx.check(got == names, 'contexts', (got, names))
    got = [[(e.pattern.raw, e.prio, e.where.lineno) for e in c]
           for c in plan.contexts]
    ctx.check(got == exts, 'extensions', (got, exts))
    got = [[(n.context_name, n.where.lineno) for n in c.includes]
           for c in plan.contexts]
    ctx.check(got == incs, 'includes', (got, incs))
    for c in plan.contexts:
        ctx.check(plan.get_context(c.name) is c, 'by name')
    mine = [m for m in raised() if m[0] != 'W_DP_PRIO_BADORDER' and
            not m[0].startswith(('H_WSV', 'W_WSV'))]
    for m in mine:
        ctx.cover(m[0])
    ctx.check(sorted(mine) == sorted(said), 'messages', (mine, said))


LONG = ('default', 'Default', 'default2', 'default ', 'x' * 79, 'x' * 80,
        'x' * 81, 'c3', 'c4', '\xe9', 'general-')


def many(ctx, two):
    """Openings among others, possibly in an included file."""
    names = ['c%d' % (i % 5) for i in range(8)]
    for i in (0, 1):
        at = ctx.choice('at%d' % i, list(range(i * 4, i * 4 + 4)))
        names[at] = ctx.choice('name%d' % i, LONG)
    files = {'m': [b'[general]\n', b'[globals]\n']}
    file = 'm'
    order, exts, incs = [], {}, {}
    for i, name in enumerate(names):
        if two and i == 3:
            files['m'].append(b'#include f\n')
            files['f'] = []
            file = 'f'
        if two and i == 6:
            file = 'm'
        lines = files[file]
        lines.append(('[' + name + ']\n').encode('utf-8'))
        if name not in exts:
            order.append(name)
            exts[name] = []
            incs[name] = []
        prio = 'n' if i else '1'
        prefix = 'exten => 1,' if not exts[name] or i % 2 else 'same => '
        lines.append((prefix + prio + ',NoOp()\n').encode('ascii'))
        # it follows the last one in the file, whatever context it is in
        last = i + 1
        exts[name].append(('1', last, file, len(lines)))
        lines.append(b'include => inc%d\n' % i)
        incs[name].append(('inc%d' % i, file, len(lines)))
    fresh()
    plan = dp.load(files)
    got = [(c.name, [(e.pattern.raw, e.prio, e.where.filename,
                      e.where.lineno) for e in c],
            [(n.context_name, n.where.filename, n.where.lineno)
             for n in c.includes]) for c in plan.contexts]
    want = [(n, exts[n], incs[n]) for n in order]
    ctx.check(got == want, 'contexts', (got, want))
    mine = [m for m in raised() if m[0] not in (
        'W_DP_PRIO_BADORDER', 'E_DP_PRIO_DUPE') and
            not m[0].startswith(('H_WSV', 'W_WSV'))]
    ctx.check(mine == [], 'messages', mine)


def jobs(tier):
    out = []
    heads = ['', '(!)', '(t)', '(t,u)', ' ; c']
    for i, kinds in enumerate(((1,), (2,), (1, 1), (0, 1), (1, 0))):
        out.append(('some%d' % i, run, {'kinds': kinds, 'heads': heads}))
    for i, kinds in enumerate(((2, 1), (1, 2), (1, 0, 1), (0, 1, 1))):
        out.append(('more%d' % i, run, {'kinds': kinds, 'heads': [''],
                                        'alpha': 'aA1' if i < 2 else 'aA'}))
    for two in (False, True):
        out.append(('many%d' % two, many, {'two': two}))
    out.append(('orphan', run, {'kinds': (1,), 'heads': [''],
                                'orphan': True}))
    if tier != 'quick':
        out.append(('ones', run, {'kinds': (1, 1, 1), 'heads': [''],
                                  'alpha': 'ab'}))
        out.append(('nones', run, {'kinds': (0, 0, 0, 1),
                                   'heads': ['', '(!)']}))
    return out
