"""A04: number of arguments, options and pipes."""
from props import dp, app
from props.common import names, msgs

BOUNDS = {
    'quick': 'VoiceMail, Milliwatt, Originate, Goto and Gosub with any data '
             'of up to 5 characters out of seven or eight; any options of up '
             'to 4 characters out of nine, of 2 characters, ASCII; any type '
             'of Originate of 3 letters; variables in the arguments; three '
             'characters behind up to 20 arguments or long options',
    'thorough': 'up to 6 characters, and up to 5 of options',
}
OUTSIDE = 'longer data; a backslash at the end'
COVERS = ('E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'E_APP_ARG_BADOPT',
          'E_APP_ARG_DUPEOPT', 'E_APP_ARG_PIPEDELIM', 'fine', 'optarg')
setup = dp.warm

# name: min, max, {argument: options}
APPS = {
    'VoiceMail': (1, 2, {2: 'bdgsuUP'}),
    'Milliwatt': (None, 1, {1: 'o'}),
    'Originate': (3, 6, {}),
    'Goto': (1, 3, {}),
    'Gosub': (1, 3, {}),
}


def options(arg):
    """The letters: what stands in parentheses behind one is its argument."""
    out = []
    i = 0
    while i < len(arg):
        if arg[i] == '(' and out:
            end = arg.find(')', i)
            if end >= 0:
                i = end + 1
                continue
        out.append(arg[i])
        i += 1
    return out


def spec(name, data):
    """-> messages: (name, field, value)"""
    lo, hi, opts = APPS[name]
    args = app.args_of(data)
    said = []
    if lo is not None and (len(args) < lo or (lo == 1 and args == [''])):
        said.append(('E_APP_ARG_FEW', 'min_args', lo))
    elif len(args) > hi:
        said.append(('E_APP_ARG_MANY', 'max_args', hi))
    if len(args) == 1 and '|' in args[0]:
        said.append(('E_APP_ARG_PIPEDELIM', 'data', data))
    for k, legal in sorted(opts.items()):
        if k <= len(args):
            letters = options(args[k - 1])
            bad = ''.join([c for c in letters if c not in legal])
            if bad:
                said.append(('E_APP_ARG_BADOPT', 'opts', bad))
            for i in range(len(letters)):
                if letters[i] in letters[:i]:
                    said.append(('E_APP_ARG_DUPEOPT', 'opts', args[k - 1]))
                    break
    if name == 'Originate' and len(args) >= 2:
        if app.lower(args[1]) not in ('app', 'exten'):
            said.append(('E_APP_ARG_BADOPT', 'opts', args[1]))
    return said


def judge(ctx, name, data, want):
    app.lint(name + '(' + data + ')')
    got = []
    for n in sorted(names()):
        for m in msgs(n):
            if n[:10] == 'E_APP_ARG_':
                for field in ('min_args', 'max_args', 'opts', 'data'):
                    if field in m.fmtkwargs:
                        value = m.fmtkwargs[field]
                        if field in ('opts', 'data'):
                            value = str(value)
                        got.append((n, field, value))
                        break
                ctx.check(m.fmtkwargs['app'] == name, 'name of the app')
                ctx.check(m.where.lineno == 4, 'line')
    for w in want or [('fine',)]:
        ctx.cover(w[0])
    ctx.observe('got', got)
    ctx.check(got == sorted(want), 'messages', (data, got, want))


def run(ctx, name, n, alpha, before='', after=''):
    data = before + ctx.str('data', n, alpha) + after
    ctx.assume(data[-1:] != '\\')
    if '(' in data[2:]:
        ctx.cover('optarg')
    judge(ctx, name, data, spec(name, data))


def dynamic(ctx, name, form, want):
    judge(ctx, name, form, want)


def jobs(tier):
    big = tier != 'quick'
    out = []
    top = 7 if big else 6
    for name, alpha in (('VoiceMail', ',u()"x|g'), ('Milliwatt', ',o()"x|'),
                        ('Goto', ',()"x|\\'), ('Gosub', ',()"x|[')):
        for n in range(0, top - (name != 'VoiceMail')):
            out.append(('%s%d' % (name, n), run, {
                'name': name, 'n': n, 'alpha': alpha}))
    for n in range(0, 6 if big else 5):
        out.append(('options%d' % n, run, {
            'name': 'VoiceMail', 'n': n, 'alpha': 'bug()sU"A',
            'before': '1,'}))
    for n in (1, 2):
        out.append(('any%d' % n, run, {
            'name': 'VoiceMail', 'n': n, 'alpha': 'ascii:-\n\r;$\\',
            'before': '1,'}))
        out.append(('anyone%d' % n, run, {
            'name': 'VoiceMail', 'n': n, 'alpha': 'ascii:-\n\r;$\\'}))
    for n in range(0, 8):
        out.append(('originate%d' % n, run, {
            'name': 'Originate', 'n': n, 'alpha': ',a'}))
    for n in (3, 5):
        out.append(('type%d' % n, run, {
            'name': 'Originate', 'n': n, 'alpha': 'aApPxXtTeEnN',
            'before': 'SIP/x,', 'after': ',y'}))
    for k, (name, before, alpha) in enumerate((
            ('Originate', 'SIP/peer-1,exten,' + 'a' * 90, ',a|'),
            ('Originate', 'a,app,c,d,e,f', ',a|'),
            ('Originate', 'a,app' + ',x' * 20, ',a|'),
            ('VoiceMail', '123@ctx&' * 20 + ',', 'ug(A,'),
            ('VoiceMail', '1,ug(' + '5' * 40 + ')', 'ug(A,'),
            ('VoiceMail', '1,g(1)g(2)', 'ug(A,'),
            ('VoiceMail', '1,' + 'u' * 20, 'ug(A,'),
            ('Goto', 'c' * 80 + ',' + '1' * 40 + ',n', ',(|'))):
        out.append(('far%d' % k, run, {
            'name': name, 'n': 3, 'alpha': alpha, 'before': before}))
    out.append(('typeany', run, {
        'name': 'Originate', 'n': 2, 'alpha': 'ascii:-\n\r;$\\',
        'before': 'SIP/x,', 'after': ',y'}))
    forms = [
        ('VoiceMail', '${x}', []),
        ('VoiceMail', '1,${x}', []),
        ('VoiceMail', '1,u${x}', []),
        ('VoiceMail', '1,u${x}u', [('E_APP_ARG_DUPEOPT', 'opts', 'u${x}u')]),
        ('VoiceMail', '1,${x}A', [('E_APP_ARG_BADOPT', 'opts', 'A')]),
        ('VoiceMail', '1,g(${x})', []),
        ('VoiceMail', '1,g(${x}A)u', []),
        ('VoiceMail', '1,g(${x})uu',
         [('E_APP_ARG_DUPEOPT', 'opts', 'g(${x})uu')]),
        ('VoiceMail', '${x}|u', [('E_APP_ARG_PIPEDELIM', 'data', '${x}|u')]),
        ('VoiceMail', '${x,y}', []),
        ('VoiceMail', '${x},${y},', [('E_APP_ARG_MANY', 'max_args', 2)]),
        ('VoiceMail', '${CUT(a,b,c)}', []),
        ('VoiceMail', '${CUT(a|b,c,d)}', []),
        ('Milliwatt', '${x}', []),
        ('Milliwatt', 'o${x}', []),
        ('Milliwatt', '${x},o', [('E_APP_ARG_MANY', 'max_args', 1)]),
        ('Originate', '${x},${y}', [('E_APP_ARG_FEW', 'min_args', 3)]),
        ('Originate', '${x},${y},${z}', []),
        ('Originate', 'a,ap${y},z', []),
        ('Originate', 'a,APP,z', []),
        ('Originate', 'a,Exten,z,1,1', []),
        ('Goto', '${x}', []),
        ('Goto', '${x},${y},${z}', []),
        ('Goto', '${x},${y},${z},a', [('E_APP_ARG_MANY', 'max_args', 3)]),
        ('Goto', '${x}|1', [('E_APP_ARG_PIPEDELIM', 'data', '${x}|1')]),
        ('Gosub', '${x}(${a},${b})', []),
        ('Gosub', 'x,1,1(a,b,c,d)', []),
    ]
    for k, (name, form, want) in enumerate(forms):
        out.append(('form%d' % k, dynamic, {
            'name': name, 'form': form, 'want': want}))
    return out
