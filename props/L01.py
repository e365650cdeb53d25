"""L01: modules-show lists what the dialplan uses."""
from importlib import import_module
from props import dp
from props.asterisk import APP_MODULE, FUNC_MODULE
from props.common import fresh
from props.fs import FakeFs, ROOT
from props.app import lower

BOUNDS = {
    'quick': 'any two uses out of 21 applications, functions and nested '
             'calls with any name of one letter in them, in any case; any '
             'selection of eight builtin applications; any of four '
             'consecutive ones of all 120 applications and 116 functions, by '
             'module, and all but one of any; the functions of a '
             'func_odbc.conf beside it or as told',
    'thorough': 'any three uses; names of two letters; any selection of '
                'eleven builtin applications; any of six consecutive ones',
}
OUTSIDE = 'another version than the default; modules of other names'
COVERS = ('builtin', 'module', 'unknown app', 'unknown function', 'inner',
          'nothing', 'case', 'wrapped', 'odbc', 'same module')
APPS = APP_MODULE
FUNCS = FUNC_MODULE
# text of the line, applications and functions in it; @ is a free name.
USES = [
    ('NoOp(@)', ['NoOp'], []),
    ('Dial(x,1)', ['Dial'], []),
    ('Playback(${CUT(@,1)})', ['Playback'], ['CUT']),
    ('NoOp(${LEN(${DB(a/@)})})', ['NoOp'], ['LEN', 'DB']),
    ('Set(DB(@)=${CUT(a,1)})', ['Set'], ['DB', 'CUT']),
    ('Set(x=${SORT(@)})', ['Set'], ['SORT']),
    ('Set(CDR(@)=1)', ['Set'], ['CDR']),
    ('NoOp($[${DB_EXISTS(@)} + ${FILTER(0-9,@)}])', ['NoOp'],
     ['DB_EXISTS', 'FILTER']),
    ('ExecIf($[${x}]?Dial(x):Playback(@))', ['ExecIf', 'Dial', 'Playback'],
     []),
    ('ExecIf($[${x}]?Macro(a))', ['ExecIf', 'Macro'], []),
    ('ExecIf($[${x}]?@)', ['ExecIf', '@'], []),
    ('@(x)', ['@'], []),
    ('@(${LEN(x)})', ['@'], ['LEN']),
    ('NoOp(${@(x)})', ['NoOp'], ['@']),
    ('Set(@(x)=1)', ['Set'], ['@']),
    ('Queue(@)', ['Queue'], []),
    ('NoOp(CUT(@) Dial)', ['NoOp'], []),
    ('NoOp(${CUT})', ['NoOp'], []),
    ('NoOp(${${@}(x)})', ['NoOp'], []),
    ('NoOp(a\\;b) ; Dial(${CUT(@)})', ['NoOp'], []),
    (' ;Dial(x)', [], []),
]


def setup():
    dp.warm()
    import_module('asterisklint.commands.modules-show')


def show(ctx, files, args):
    fresh()
    module = import_module('asterisklint.commands.modules-show')
    with FakeFs(files):
        status = module.main(args, {})
    ctx.check(ctx.output() == '', 'nothing on stderr')
    section = None
    got = {'Application': {}, 'Function': {}, 'load': [], 'applications': [],
           'functions': []}
    order = {'Application': [], 'Function': []}
    last = None
    for line in ctx.output('out').split('\n'):
        if line[0:8] == 'load => ':
            ctx.check(line[-3:] == '.so', 'load line', line)
            got['load'].append(line[8:-3])
        elif line[-23:] == 'providing modules used:':
            section = line[2:].split(' ')[0]
        elif line[0:12] == '; WARNING: T':
            section = line.split(' ')[-3]
        elif line[0:4] == ';   ':
            if section not in order:
                ctx.check(got[section] == [], 'one line', line)
                got[section] = line[4:].split(', ')
                continue
            if line[4] == ' ':
                ctx.cover('wrapped')
            else:
                last = line[4:].split(' ')[0]
                order[section].append(last)
                ctx.check(last not in got[section], 'module once', line)
                got[section][last] = []
            ctx.check(len(line) <= 80, 'width', line)
            rest = line[4:] if line[4] == ' ' else line[4 + len(last):]
            for item in rest.split(','):
                item = item.strip(' ')
                if item:
                    ctx.check(item[-2:] == '()', 'item', line)
                    got[section][last].append(item[0:-2])
    for section in order:
        ctx.check(order[section] == sorted(order[section]), 'sorted')
    return status, got


def judge(ctx, result, apps, funcs, more={}):
    status, got = result
    ctx.observe('got', (status, got))
    load = []
    for section, table, used, unknown in (
            ('Application', APPS, apps, 'applications'),
            ('Function', dict(list(FUNCS.items()) + list(more.items())),
             funcs, 'functions')):
        want = {}
        missing = []
        for use in used:
            known = [k for k in table if lower(k) == lower(use)]
            if not known:
                if use not in missing:
                    missing.append(use)
                continue
            if use != known[0]:
                ctx.cover('case')
            module = table[known[0]]
            if module not in want:
                want[module] = []
            elif known[0] not in want[module]:
                ctx.cover('same module')
            if known[0] not in want[module]:
                want[module].append(known[0])
            if module == '<builtin>':
                ctx.cover('builtin')
            else:
                ctx.cover('module')
                if module not in load:
                    load.append(module)
        have = got[section]
        ctx.check(sorted(have) == sorted(want), 'modules', (have, want))
        for module in want:
            ctx.check(sorted(have[module]) == sorted(want[module]), 'items',
                      (have, want))
        if missing:
            ctx.cover('unknown app' if section == 'Application' else
                      'unknown function')
        ctx.check(sorted(got[unknown]) == sorted(missing), 'unknown',
                  (got[unknown], missing))
    ctx.check(got['load'] == sorted(load), 'load', (got['load'], load))
    ctx.check((status or 0) == (
        1 if got['applications'] or got['functions'] else 0), 'exit status',
        status)


def plan(texts):
    return [t.encode('ascii') + b'\n' for t in [
        '[general]', '[globals]', '[a]'] + [
            'exten => 1,%d,%s' % (i + 1, t) for i, t in enumerate(texts)]]


def uses(ctx, first, count, n):
    """Any lines out of those."""
    texts = []
    apps = []
    funcs = []
    for i in range(count):
        use = ctx.choice('use%d' % i, USES[first:first + 1] if i == 0 else
                         USES)
        name = ctx.str('name%d' % i, n, 'abXyz') if '@' in use[0] else ''
        text = use[0].replace('@', name)
        if text[0:2] == ' ;':
            continue
        texts.append(text)
        apps += [a.replace('@', name) for a in use[1]]
        funcs += [f.replace('@', name) for f in use[2]]
        if len(use[1]) > 1:
            ctx.cover('inner')
    if not texts:
        ctx.cover('nothing')
    judge(ctx, show(ctx, {'d/extensions.conf': plan(texts)}, [
        ROOT + 'd/extensions.conf']), apps, funcs)


def case(ctx, name, func):
    """The name in any case."""
    use = ''
    for i, c in enumerate(name):
        if c != '_':
            use += ctx.str('c%d' % i, 1, lower(c) + lower(c).upper())
        else:
            use += c
    if func:
        line, apps, funcs = 'NoOp(${' + use + '(x)})', ['NoOp'], [use]
    else:
        line, apps, funcs = use + '(x)', [use], []
    judge(ctx, show(ctx, {'e': plan([line])}, [ROOT + 'e']), apps, funcs)


def many(ctx, count):
    """More than fit on a line."""
    names = ['Answer', 'Background', 'Busy', 'Congestion', 'Goto', 'Hangup',
             'NoOp', 'Proceeding', 'Progress', 'Ringing', 'SayDigits', 'Set',
             'Wait', 'WaitExten'][-count:]
    used = [k for k in names if ctx.bool('use' + k)]
    judge(ctx, show(ctx, {'e': plan([
        'NoOp' if k == 'NoOp' else
        k + ('(1)' if k not in ('Set', 'Goto') else
             '(a=1)' if k == 'Set' else '(1)') for k in used])}, [
                 ROOT + 'e']), used, [])


def some(ctx, names, func):
    """Any of these."""
    texts = []
    used = []
    for name in names:
        if ctx.bool('use' + name):
            texts.append('NoOp(${' + name + '(a=b)})' if func else
                         name + '(a=b)')
            used.append(name)
    if not used:
        ctx.cover('nothing')
    judge(ctx, show(ctx, {'e': plan(texts)}, [ROOT + 'e']),
          ['NoOp'] * min(len(used), 1) if func else used,
          used if func else [])


def most(ctx, func):
    """All of them but one, out of order."""
    names = sorted(FUNCS if func else APPS, key=(lambda k: k[::-1]))
    but = ctx.choice('but', names[::9])
    names.remove(but)
    texts = ['NoOp(${' + n + '(a=b)})' if func else n + '(a=b)'
             for n in names]
    judge(ctx, show(ctx, {'e': plan(texts)}, [ROOT + 'e']),
          ['NoOp'] if func else names, names if func else [])


def odbc(ctx, n):
    """Functions of func_odbc.conf are known."""
    name = ctx.str('name', n, 'AB')
    use = 'ODBC_' + ctx.str('use', n, 'ABa')
    option = ctx.choice('option', [None, '', 'func_odbc.conf'])
    place = ctx.choice('place', ['func_odbc.conf', 'd/func_odbc.conf'])
    args = [ROOT + 'd/extensions.conf']
    if option is not None:
        args += ['--func-odbc', option and ROOT + option]
        if option:
            ctx.assume(option == place)
    files = {'d/extensions.conf': plan(['NoOp(${' + use + '(1)})']),
             place: [('[' + name + ']\n').encode('ascii'), b'readsql=x\n']}
    more = {}
    if option or option is None and place[0] == 'd':
        more['ODBC_' + name] = 'func_odbc'
        ctx.cover('odbc')
    judge(ctx, show(ctx, files, args), ['NoOp'], [use], more)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for i in range(len(USES)):
        out.append(('use%d' % i, uses, {'first': i, 'count': 2, 'n': 1}))
        if big:
            out.append(('use2-%d' % i, uses, {'first': i, 'count': 1,
                                              'n': 2}))
            if not i % 2:
                out.append(('use3-%d' % i, uses, {'first': i, 'count': 3,
                                                  'n': 1}))
    for name, func in (('Dial', False), ('ExecIf', False), ('NoOp', False),
                       ('CUT', True), ('LEN', True)):
        out.append(('case-' + name, case, {'name': name, 'func': func}))
    for table, func in ((APPS, False), (FUNCS, True)):
        names = sorted(table, key=(lambda k: (table[k], k)))
        step = 6 if big else 4
        for i in range(0, len(names), step):
            out.append(('some-%s' % names[i], some, {
                'names': names[i:i + step], 'func': func}))
    out.append(('most-apps', most, {'func': False}))
    out.append(('most-funcs', most, {'func': True}))
    out.append(('many', many, {'count': 11 if big else 8}))
    for n in range(1, 4 if big else 3):
        out.append(('odbc%d' % n, odbc, {'n': n}))
    return out
