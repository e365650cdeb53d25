"""O02: functions of func_odbc.conf can be used in the dialplan."""
from asterisklint.mainutil import load_func_odbc_functions
from asterisklint.func_odbc import OdbcFunction
from props import app, dp
from props.common import fresh, names, msgs
from props.fs import FakeFs, ROOT
from props.O01 import load

BOUNDS = {
    'quick': 'prefixes and names of up to 2 characters and any use of up to '
             '4 characters out of six, read and written; two functions '
             'with or without statement; every place of the file and of the '
             '--func-odbc option; any statement of up to 3 characters out '
             'of three in each place; six functions with names of 24 characters',
    'thorough': 'prefixes and names of up to 3 characters, uses of up to 5',
}
OUTSIDE = 'longer names; names that differ only in case; functions that ' \
    'replace one of Asterisk'
COVERS = ('known', 'E_FUNC_MISSING', 'E_FUNC_BAD_CASE', 'refused',
          'disabled', 'beside', 'explicit', 'absent', 'ODBC',
          'read', 'write', 'insert')
setup = dp.warm
MINE = ('E_FUNC_MISSING', 'E_FUNC_BAD_CASE')


def says(used, known):
    if used in known:
        return []
    if app.lower(used) in [app.lower(k) for k in known]:
        return ['E_FUNC_BAD_CASE']
    return ['E_FUNC_MISSING']


def judge(ctx, used, known, writing, files=None):
    app.lint('Set(' + used + '(1)=2)' if writing else
             'NoOp(${' + used + '(1)})')
    got = [n for n in names() if n in MINE]
    want = says(used, known)
    for w in want or ['known']:
        ctx.cover(w)
    ctx.observe('got', got)
    ctx.check(got == want, 'messages', (used, got, want))
    for m in [m for n in MINE for m in msgs(n)]:
        ctx.check(m.fmtkwargs['func'] == used, 'name in the message')
    for m in msgs('E_FUNC_BAD_CASE'):
        ctx.check(m.fmtkwargs['proper'] in known, 'proper name')


def one(ctx, prefix, name, used, writing):
    """[name] with that prefix against any use."""
    name = ctx.str('name', name, 'AB0')
    lines = ['[' + name + ']\n']
    if prefix is None:
        full = 'ODBC_' + name
    else:
        text = ctx.str('prefix', prefix, 'aAB_')
        lines.append('prefix=' + text + '\n')
        full = (text or 'ODBC') + '_' + name
    if not prefix:
        ctx.cover('ODBC')
    if used is None:
        use = full
    elif used == 'case':
        use = ''
        for i, c in enumerate(full):
            k = ctx.int('k%d' % i, 0, 1)
            use += c if k else swap(c)
    else:
        use = ctx.str('use', used, 'abAB0_')
    lines.append('readsql=x\n')
    load([line.encode('ascii') for line in lines])
    ctx.check(list(names()) == [n for n in names()
                                if n == 'W_ODBC_BADTOKENS'], 'no complaint')
    judge(ctx, use, [full], writing)


def swap(c):
    if 'A' <= c and c <= 'Z':
        return chr(ord(c) + 32)
    if 'a' <= c and c <= 'z':
        return chr(ord(c) - 32)
    return c


def two(ctx, keys):
    """Those with a statement, and only those, can be used."""
    lines = []
    known = []
    for name in 'AB':
        lines.append('[' + name + ']\n')
        key = ctx.choice('key' + name, keys)
        if key:
            lines.append(key + '=x\n' if key[-1] != '=' else key + '\n')
        if key in ('readsql', 'writesql', 'read', 'write'):
            known.append('ODBC_' + name)
        else:
            ctx.cover('refused')
    load([line.encode('ascii') for line in lines])
    use = 'ODBC_' + ctx.str('use', 1, 'ABab')
    judge(ctx, use, known, ctx.bool('writing'))


def several(ctx, count, writing):
    """More functions, of long names that are nearly the same."""
    lines, known = [], []
    at = ctx.int('at', 0, count - 1)
    for i in range(count):
        name = 'GET_THE_NUMBER_OF_%d_AB' % (i + 1)
        if i == at:
            name += ctx.str('name', 1, 'ABC1')
        lines += ['[' + name + ']\n',
                  ctx.choice('key%d' % i, ['readsql', 'writesql'])
                  if i in (0, at) else 'readsql', '=x\n']
        known.append('ODBC_' + name)
    load([line.encode('ascii') for line in ''.join(lines).splitlines(True)])
    ctx.check(list(names()) == [], 'no complaint')
    number = ctx.str('number', 1, '0123456789')
    use = 'ODBC_GET_THE_NUMBER_OF_' + number + '_A' + ctx.choice(
        'tail', ['', 'B', 'b', 'BA', 'BB', 'BBB'])
    judge(ctx, use, known, writing)


def place(ctx):
    """Which file is read."""
    fresh()
    file1 = ctx.choice('file1', ['func_odbc.conf', 'd/func_odbc.conf'])
    both = ctx.bool('both')
    files = {file1: [b'[ONE]\n', b'readsql=x\n']}
    if both:
        files['other'] = [b'[TWO]\n', b'readsql=x\n']
    plan = ctx.choice('plan', ['extensions.conf', 'd/extensions.conf',
                               'e/extensions.conf'])
    option = ctx.choice('option', [None, '', 'other', 'func_odbc.conf'])
    beside = plan[0:-15] + 'func_odbc.conf'
    known = []
    want = None
    if option == '':
        ctx.cover('disabled')
    elif option is None:
        if beside in files:
            ctx.cover('beside')
            want = beside
        else:
            ctx.cover('absent')
    else:
        want = option
        ctx.cover('explicit')
    root = ctx.choice('root', [ROOT, '', './'])
    with FakeFs(files, root != ROOT) as fs:
        try:
            load_func_odbc_functions(option and root + option, root + plan)
        except FileNotFoundError:
            ctx.check(option and option not in files, 'not found')
            return
    ctx.check(fs.opened == ([root + want] if want else []), 'file read',
              (fs.opened, want))
    if want:
        known.append('ODBC_TWO' if want == 'other' else 'ODBC_ONE')
    judge(ctx, ctx.choice('use', ['ODBC_ONE', 'ODBC_TWO']), known, False)


def queries(ctx, n):
    """The statements are those of the file; the modern keys come first."""
    keys = ctx.choice('keys', [
        ('readsql', 'read'), ('writesql', 'write'), ('readsql', 'write'),
        ('insertsql', 'read'), ('read', 'write'), ('writesql', 'insertsql'),
        ('read', 'readsql'), ('write', 'writesql')])
    texts = [ctx.str('text%d' % i, n, 'x) ') for i in range(2)]
    for t in texts:
        ctx.assume(t[0] != ' ' and t[-1] != ' ')
    functions = load([b'[A]\n'] + [
        (k + '=' + t + '\n').encode('ascii') for k, t in zip(keys, texts)])
    got = functions[0].get_queries()
    want = {}
    for kind, new, old in (('read', 'readsql', 'read'),
                           ('write', 'writesql', 'write'),
                           ('insert', 'insertsql', None)):
        for key in (old, new):
            for k, t in zip(keys, texts):
                if k == key:
                    want[kind] = t
                    ctx.cover(kind)
    ctx.check(sorted(got) == sorted(want), 'kinds', (sorted(got), want))
    for k in want:
        ctx.check(want[k] in list(vars(got[k]).values()), 'statement')
    ctx.check(functions[0].get_function_name() == 'ODBC_A', 'name')


def jobs(tier):
    big = tier != 'quick'
    out = []
    most = 3 if big else 2
    for writing in (False, True):
        w = 'w' if writing else 'r'
        for prefix in [None] + list(range(0, most + 1)):
            for name in range(1, most + 1):
                for used in (None, 'case'):
                    out.append(('one-%s%s-%s-%s' % (prefix, name, used, w),
                                one, {'prefix': prefix, 'name': name,
                                      'used': used, 'writing': writing}))
                if prefix and prefix + name <= most + 1:
                    for used in range(prefix + name, prefix + name + 2):
                        out.append(('one-%s%s-%d-%s' % (
                            prefix, name, used, w), one, {
                                'prefix': prefix, 'name': name,
                                'used': used, 'writing': writing}))
    out.append(('two', two, {'keys': [
        None, 'dsn', 'readsql', 'writesql', 'insertsql', 'read', 'write',
        'bogus', 'readsql=', 'writesql=', 'read=', 'write=']}))
    for count in (3, 6) + ((9,) if big else ()):
        for writing in (False, True):
            out.append(('several%d%s' % (count, writing), several,
                        {'count': count, 'writing': writing}))
    out.append(('place', place, {}))
    for n in range(1, 5 if big else 4):
        out.append(('queries%d' % n, queries, {'n': n}))
    return out
