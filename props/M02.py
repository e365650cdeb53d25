"""M02: the exit status of the checking commands."""
from importlib import import_module
from asterisklint.defines import MessageDefManager
from props import dp
from props.common import fresh, kind
from props.fs import FakeFs, ROOT

BOUNDS = {
    'quick': 'any application name of up to 5 characters out of seven, any '
             'line of up to 5 out of nine, any destination of a goto of up '
             'to 3 out of four, any key of up to 5 out of six and '
             'every set of muted messages out of the three concerned; the '
             'functions of a func_odbc.conf beside it',
    'thorough': 'names of up to 6, lines and keys of up to 7 characters',
}
OUTSIDE = 'longer text; messages muted by ALINT_IGNORE rather than by the ' \
    'flag that it sets (M01)'
COVERS = ('0', '1', 'muted', 'odbc')


def setup():
    dp.warm()
    for name in ('dialplan-check', 'func_odbc-check'):
        import_module('asterisklint.commands.' + name)


def run(ctx, command, args, files, mute):
    fresh()
    kinds = []
    for i, name in enumerate(mute):
        if ctx.bool('mute%d' % i):
            kind(name).muted = True
            kinds.append(kind(name))
    module = import_module('asterisklint.commands.' + command)
    try:
        with FakeFs(files):
            status = module.main(args, {})
    finally:
        for k in kinds:
            k.muted = False
    said = [m for name in MessageDefManager.raised
            for m in MessageDefManager.raised[name]]
    quiet = ctx.output() == ''
    ctx.observe('status', status)
    ctx.check((status or 0) == (0 if quiet else 1), 'exit status',
              (status, ctx.output()))
    # And what is muted is: the others are printed, one line each.
    lines = ctx.output().split('\n')[0:-1]
    ctx.check(len(lines) == len([
        m for m in said if m.__class__ not in kinds]), 'one line each')
    ctx.cover('0' if quiet else '1')
    if quiet and said:
        ctx.cover('muted')


def check(ctx, lines, mute, more={}, args=None):
    files = {'d/extensions.conf': [b'[general]\n', b'[globals]\n'] + lines}
    for name in more:
        files[name] = more[name]
    run(ctx, 'dialplan-check', args or [ROOT + 'd/extensions.conf'], files,
        mute)


def app(ctx, n):
    name = ctx.str('name', n, 'noOpx ()')
    check(ctx, [b'[a]\n', ('exten => 1,1,' + name + '\n').encode('ascii')],
          ['E_APP_MISSING', 'W_APP_BAD_CASE', 'W_APP_NEED_PARENS'])


def line(ctx, n):
    text = ctx.str('line', n, 'a=>[];#\t')
    check(ctx, [b'[a]\n', (text + '\n').encode('ascii')],
          ['E_CONF_KEY_INVALID'])


def goto(ctx, n):
    """What is found after all is read counts too."""
    text = ctx.str('text', n, 'a12,')
    check(ctx, [b'[a]\n', ('exten => 1,1,Goto(' + text + ')\n').encode(
        'ascii')], ['E_DP_GOTO_NOLABEL', 'E_DP_GOTO_NOCONTEXT'])


def function(ctx):
    """A function of func_odbc.conf."""
    used = ctx.str('used', 1, 'ABa')
    where = ctx.choice('where', ['d/func_odbc.conf', 'func_odbc.conf'])
    sql = ctx.choice('sql', ['readsql=x\n', 'read=x\n', 'dsn=x\n'])
    option = ctx.choice('option', [None, '', 'func_odbc.conf'])
    args = [ROOT + 'd/extensions.conf']
    if option is not None:
        args += ['--func-odbc', option and ROOT + 'func_odbc.conf']
        if option:
            ctx.assume(where == option)
    ctx.cover('odbc')
    check(ctx, [b'[a]\n', ('exten => 1,1,NoOp(${ODBC_' + used +
                           '(1)})\n').encode('ascii')],
          ['E_FUNC_MISSING', 'E_ODBC_NOSQL', 'W_ODBC_LEGACY'],
          {where: [b'[A]\n', sql.encode('ascii')]}, args)


def odbc(ctx, n):
    key = ctx.str('key', n, 'readx=')
    run(ctx, 'func_odbc-check', [ROOT + 'func_odbc.conf'], {
        'func_odbc.conf': [b'[A]\n', b'write=x\n',
                           (key + '=y\n').encode('ascii')]},
        ['E_CONF_KEY_INVALID', 'W_CONF_KEY_LATE', 'W_ODBC_LEGACY'])


def jobs(tier):
    big = tier != 'quick'
    out = [('function', function, {})]
    for n in range(0, 7 if big else 6):
        out.append(('app%d' % n, app, {'n': n}))
    for n in range(0, 8 if big else 6):
        out.append(('line%d' % n, line, {'n': n}))
        out.append(('odbc%d' % n, odbc, {'n': n}))
    for n in range(0, 5 if big else 4):
        out.append(('goto%d' % n, goto, {'n': n}))
    return out
