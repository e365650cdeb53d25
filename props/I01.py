"""I01: ident-scan lists the names of the dialplan and finds those alike."""
from importlib import import_module
from props import dp, var
from props.common import fresh
from props.fs import FakeFs, ROOT

BOUNDS = {
    'quick': 'any text of up to 6 characters out of seven (variables, '
             'slices, nesting); two variables of up to 4 and 2 characters '
             '(nested, sliced) in one file or two, or up to twelve; contexts, empty or not, '
             'and labels of 1..2 characters; two names of up to 5, three of which '
             'one has up to 4 and two have 3 characters',
    'thorough': 'texts of up to 8 characters; two variables of up to 5 and '
                '3; two names of up to 6, three of up to 4',
}
OUTSIDE = 'longer names; the names in function calls (V06); more than three ' \
    'names that are nearly alike; the library that tells the distance of ' \
    'two names (a plain edit distance stands for it)'
COVERS = ('counted', 'twice', 'two files', 'dynamic', 'slice', 'label',
          'alike', 'not alike', 'case', 'arg', '0', '1', 'by length', 'without')


class Distance(object):
    """Edit distance, as far as it matters here: 3 is: 3 or more."""

    def eval(self, a, b):
        return dist(a, b, 3)


def dist(a, b, most):
    if most == 0 or not a or not b:
        return min(most, len(a) + len(b))
    if a[0] == b[0]:
        return dist(a[1:], b[1:], most)
    return 1 + min(dist(a[1:], b, most - 1), dist(a, b[1:], most - 1),
                   dist(a[1:], b[1:], most - 1))


def setup():
    dp.warm()
    import_module('asterisklint.commands.ident-scan')


def scan(ctx, files, verbose=True):
    """[(kind, line)] and whether alike names were found."""
    fresh()
    module = import_module('asterisklint.commands.ident-scan')
    module.editdistance = Distance()
    with FakeFs(files):
        status = module.main((['-v'] if verbose else []) + [ROOT + 'm'], {})
    ctx.check(ctx.output() == '', 'nothing on stderr')
    found = {}
    kind = None
    for line in ctx.output('out').split('\n'):
        if line[0:2] == '  ':
            found[kind].append(line[2:])
        elif line:
            kind = line.split(' ')[0]
            ctx.check(kind not in found, 'one list of each kind', line)
            found[kind] = []
    alike = found.pop('Identifiers', None)
    ctx.check(sorted(found) == (['Contexts', 'Labels', 'Variables']
                                if verbose else []), 'lists', sorted(found))
    ctx.check((status or 0) == (0 if alike is None else 1), 'exit status',
              status)
    ctx.check(alike is None or alike != [], 'no empty list')
    ctx.cover('%d' % (status or 0))
    return found, alike


def without(ctx):
    """The library that tells the distance may be missing."""
    fresh()
    module = import_module('asterisklint.commands.ident-scan')
    module.editdistance = None
    name = ctx.str('name', 2, 'aB')
    lines = ['[general]', '[globals]', '[%s]' % name,
             'exten => 1,1(%s),NoOp(${%s}${%sb})' % (name, name, name)]
    verbose = ctx.bool('verbose')
    with FakeFs({'m': [(t + '\n').encode('ascii') for t in lines]}):
        try:
            status = module.main((['-v'] if verbose else []) + [ROOT + 'm'],
                                 {})
        except ImportError:
            ctx.check(not verbose, 'needed only to find those alike')
            ctx.check(ctx.output('out') == '', 'nothing is shown')
            return
    out = ctx.output('out')
    ctx.cover('without')
    ctx.check(verbose and (status or 0) == 0, 'shown', (verbose, status))
    ctx.check(out.split('\n') == [
        'Contexts encountered:', '  ' + name, '', 'Labels encountered:',
        '  ' + name, '', 'Variables encountered:',
        '  ' + head(name) + '  [1 times in 1 files]',
        '  ' + head(name + 'b') + '  [1 times in 1 files]', '', ''],
        'output', out)


def head(name):
    """How a name is printed: at least 32 columns."""
    return name + ' ' * (32 - len(name))


def uses(ctx, parts, out):
    """The variables named in there."""
    for p in parts:
        if not isinstance(p, tuple):
            continue
        uses(ctx, p[1], out)
        if p[0] != 'v':
            continue
        first = p[1][0] if p[1] else ''
        if len(p[1]) == 1 and not isinstance(first, tuple) or \
                not isinstance(first, tuple) and ':' in first:
            name = first.split(':')[0]
            if name != first:
                ctx.cover('slice')
            out.append(name)
        else:
            ctx.cover('dynamic')


def variables(ctx, n, m, split):
    if m:
        texts = ['${' + ctx.str('text0', n, 'a${}:') + '}',
                 'x${' + ctx.str('text1', m, 'ab:') + '}']
    else:
        texts = [ctx.str('text0', n, 'a${}[]:'), '']
    want = []
    for k, t in enumerate(texts):
        try:
            parts = var.parse(t)
        except var.Unclosed:
            # Whether those before it count is up to it.
            return
        out = []
        uses(ctx, parts, out)
        want += [(name, k) for name in out]
    first = [b'[general]\n', b'[globals]\n', b'[k]\n',
             ('exten => 1,1,NoOp(' + texts[0] + ')\n').encode('ascii')]
    second = [('exten => 1,n,NoOp(' + texts[1] + ')\n').encode('ascii')]
    if split:
        files = {'m': first + [b'#include n\n'], 'n': second}
    else:
        files = {'m': first + second}
    found, alike = scan(ctx, files)
    lines = []
    todo = want
    while todo:
        name = todo[0][0]
        same = [(x, k) for x, k in todo if x == name]
        todo = [(x, k) for x, k in todo if x != name]
        where = []
        for x, k in same:
            if k not in where:
                where.append(k)
        many = len(where) if split else 1
        if name == '':
            continue
        ctx.cover('counted')
        if len(same) > 1:
            ctx.cover('twice')
        if many > 1:
            ctx.cover('two files')
        lines.append(head(name) + '  [%d times in %d files]' % (
            len(same), many))
    # ${} is no variable, really: may be listed or not.
    found['Variables'] = [line for line in found['Variables']
                          if line[0:32] != ' ' * 32]
    ctx.observe('got', sorted(found['Variables']))
    ctx.check(sorted(found['Variables']) == sorted(lines), 'variables',
              (found['Variables'], lines))
    ctx.check(found['Contexts'] == ['k'], 'contexts', found['Contexts'])
    ctx.check(found['Labels'] == [], 'labels', found['Labels'])


def often(ctx, n):
    """Many uses in many files."""
    where = [ctx.choice('f%d' % k, 'abc') for k in range(3)]
    files = {'m': [b'[general]\n', b'[globals]\n', b'[k]\n']}
    total = {}
    for k in range(n):
        name = 'f%d' % k
        files['m'].append(b'#include ' + name.encode('ascii') + b'\n')
        var_ = where[k % 3]
        files[name] = [('exten => %d,1,NoOp(${%s})\n' % (k, var_)).encode(
            'ascii')] * 1 + [('exten => %d,2,NoOp(${%s}${x})\n' % (
                k, var_)).encode('ascii')]
        total[var_] = total.get(var_, 0) + 1
    found, alike = scan(ctx, files)
    want = [head(v) + '  [%d times in %d files]' % (2 * total[v], total[v])
            for v in total] + [head('x') + '  [%d times in %d files]' % (n, n)]
    ctx.check(sorted(found['Variables']) == sorted(want), 'many uses',
              (found['Variables'], want))


def sorted_nocase(names):
    for a, b in zip(names, names[1:]):
        if not a.lower() <= b.lower():
            return False
    return True


def places(ctx, sizes, form):
    """Contexts and labels are listed, each one once."""
    names = [ctx.str('name%d' % i, n, 'aBc') for i, n in enumerate(sizes)]
    lines = []
    want = []
    for i, name in enumerate(names):
        if form == 'context':
            lines += ['[' + name + ']'] + ctx.choice('holds%d' % i, [
                ['exten => 1,1,NoOp'], [], ['include => x']])
        elif form == 'label':
            lines.append('exten => %d,1(%s),NoOp' % (i, name))
        else:
            lines.append('same => n(%s),NoOp' % (name,))
        if name not in want:
            want.append(name)
    if form == 'context':
        contexts, labels = want, []
    else:
        ctx.cover('label')
        lines = ['[k]', 'exten => 9,1,NoOp'] + lines
        contexts, labels = ['k'], want
    found, alike = scan(ctx, {'m': [b'[general]\n', b'[globals]\n'] + [
        (t + '\n').encode('ascii') for t in lines]})
    for kind, want in (('Contexts', contexts), ('Labels', labels)):
        ctx.check(sorted(found[kind]) == sorted(want), kind,
                  (found[kind], want))
        ctx.check(sorted_nocase(found[kind]), kind + ' in order',
                  found[kind])


def similar(ctx, a, b):
    if a.lower() == b.lower() and (
            a.isupper() and b.islower() or a.islower() and b.isupper()):
        ctx.cover('case')
        return False
    if a[0:3] == 'ARG' and b[0:3] == 'ARG' and a[3:].isdigit() and \
            b[3:].isdigit():
        ctx.cover('arg')
        return False
    d = dist(a.lower(), b.lower(), 3)
    return d <= 2 and d + 1 < len(a) and d + 1 < len(b)


def before(a, b, length):
    if length and len(a) != len(b):
        return len(a) < len(b)
    return a.lower() < b.lower()


def alikes(ctx, forms, kinds):
    names = []
    for i, form in enumerate(forms):
        name = form
        if isinstance(form, tuple):
            name = form[2] + ctx.str('name%d' % i, form[0], form[1])
        names.append(name)
    for i, a in enumerate(names):
        for b in names[0:i]:
            # The order of those is up to it.
            ctx.assume(a != b)
            if len(names) > 2:
                ctx.assume(a.lower() != b.lower())
    lines = ['[general]', '[globals]']
    for i, (name, kind) in enumerate(zip(names, kinds)):
        if kind == 'c':
            lines += ['[' + name + ']', 'exten => 1,1,NoOp']
        elif kind == 'l':
            lines.append('exten => %d,1(%s),NoOp' % (i + 2, name))
        else:
            lines.append('exten => %d,1,NoOp(${%s})' % (i + 2, name))
    found, alike = scan(ctx, {'m': [
        (t + '\n').encode('ascii') for t in lines]}, False)
    pairs = []
    for length in (False, True):
        order = []
        for name in names:
            k = 0
            while k < len(order) and before(order[k], name, length):
                k += 1
            order.insert(k, name)
        for a, b in zip(order, order[1:]):
            if similar(ctx, a, b):
                if (a, b) not in pairs and (b, a) not in pairs:
                    pairs += [(a, b), (b, a)]
                    if length:
                        ctx.cover('by length')
    want = []
    for a in names:
        mine = sorted([y for x, y in pairs if x == a])
        if mine:
            want.append(head(a) + '  [similar to: ' + ', '.join(mine) + ']')
    ctx.cover('alike' if want else 'not alike')
    ctx.observe('got', alike)
    ctx.check(sorted(alike or []) == sorted(want), 'alike', (alike, want))
    ctx.check(sorted_nocase([line.split(' ')[0] for line in alike or []]),
              'in order')


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 9 if big else 7):
        out.append(('one%d' % n, variables, {'n': n, 'm': 0,
                                             'split': False}))
    for n in range(1, 6 if big else 5):
        for m in range(1, 4 if big else 3):
            for split in (False, True):
                out.append(('two%d%d%d' % (n, m, split), variables, {
                    'n': n, 'm': m, 'split': split}))
    out.append(('without', without, {}))
    for n in (3, 12):
        out.append(('often%d' % n, often, {'n': n}))
    for form in ('context', 'label', 'same'):
        for sizes in ((1,), (2,), (1, 1), (2, 1), (2, 2), (1, 1, 1)):
            out.append(('%s-%s' % (form, ''.join(map(str, sizes))), places, {
                'sizes': sizes, 'form': form}))
    for i in range(1, 7 if big else 6):
        for j in range(max(1, i - 3), i + 1):
            full = i < 5 or i == 5 and big
            out.append(('alike%d%d' % (i, j), alikes, {
                'forms': ((i, 'aAb' if full else 'ab', ''),
                          (j, 'abA' if full else 'aA', '')), 'kinds': 'cl'}))
    for i in range(1, 4):
        for j in range(1, 4):
            out.append(('args%d%d' % (i, j), alikes, {
                'forms': ((i, '12a', 'ARG'), (j, '12a', 'ARG')),
                'kinds': 'cv'}))
    out.append(('args-lower', alikes, {
        'forms': ((1, '12', 'ARG'), (1, '12', 'arg')), 'kinds': 'cv'}))
    for k, sizes in enumerate(((3, 3, 3), (4, 3, 3), (4, 4, 3),
                               (4, 4, 4))[0:4 if big else 2]):
        out.append(('three%d' % k, alikes, {
            'forms': tuple((n, 'ab', '') for n in sizes), 'kinds': 'clv'}))
        out.append(('mixed%d' % k, alikes, {
            'forms': tuple((n - 2, 'aBc', p) for n, p in zip(
                sizes, ('xy', 'xz', 'yy'))), 'kinds': 'clv'}))
    return out
