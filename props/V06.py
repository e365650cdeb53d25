"""V06: function calls ${FUNC(args):start:length}."""
from asterisklint.function import ReadFunc
from asterisklint.varfun import VarLoader
from asterisklint.where import DUMMY_WHERE
from props import dp
from props.asterisk import FUNC_MODULE
from props.common import fresh, names, msgs
from props.V02 import meaning
from props.V05 import balanced

BOUNDS = {
    'quick': 'any function name of 1..3 characters out of those that make up '
             'the shortest names, in any case; all 116 functions, each letter '
             'in either case, and one more or less; any arguments and tail of up '
             'to 5 characters out of seven together; variables in the name, '
             'the arguments and the tail; three characters behind six '
             'others of up to 400',
    'thorough': 'up to 6 characters of arguments and tail',
}
OUTSIDE = 'longer calls; other names of functions; one by the name of UNKNOWN'
COVERS = ('E_FUNC_MISSING', 'E_FUNC_BAD_CASE', 'E_FUNC_PARENS',
          'E_FUNC_TAIL', 'E_VAR_SUBSTR_START', 'W_FUNC_BALANCE', 'known',
          'slice', 'W_FUNC_DYNAMIC', 'as is', 'more', 'less')
setup = dp.warm
# Those of up to three letters.
KNOWN = ['IF', 'DB', 'ENV', 'SET', 'CDR', 'CUT', 'LEN', 'POP', 'MD5', 'INC',
         'DEC']


def upper(text):
    return ''.join(chr(ord(c) - 32) if 'a' <= c and c <= 'z' else c
                   for c in text)


def name_says(func):
    if func in KNOWN:
        return []
    if upper(func) in KNOWN:
        return ['E_FUNC_BAD_CASE']
    return ['E_FUNC_MISSING']


def verdict(ctx, text, want, dontcare=()):
    got = VarLoader().parse_variables(text, DUMMY_WHERE)
    mine = sorted(n for n in names() if n not in dontcare)
    for m in want:
        ctx.cover(m)
    ctx.observe('got', (str(got), mine))
    ctx.check(mine == sorted(want), 'messages', (mine, want))
    for m in mine:
        ctx.check(names()[m] == 1, 'once', m)
    ctx.check(isinstance(got, ReadFunc), 'a function')
    return got


def called(ctx, n, alpha):
    """Which function is that?"""
    func = ctx.str('func', n, alpha)
    fresh()
    said = name_says(func)
    if not said:
        ctx.cover('known')
    text = '${' + func + '(x=y)}'
    got = verdict(ctx, text, said, ['E_VAR_BAD_TOKENS'])
    ctx.check(got.func == func and got.args == 'x=y', 'parts')
    ctx.check(str(got) == text, 'text')
    for m in msgs('E_FUNC_BAD_CASE'):
        ctx.check(m.fmtkwargs['func'] == func and
                  m.fmtkwargs['proper'] == upper(func), 'case in message')
    for m in msgs('E_FUNC_MISSING'):
        ctx.check(m.fmtkwargs['func'] == func, 'name in message')


def cased(ctx, known):
    """Every letter in either case; or one more, or one less."""
    which = ctx.choice('which', ['as is', 'more', 'less'])
    fresh()
    func = known
    if which == 'as is':
        func = ''
        for k, c in enumerate(known):
            func += ctx.str('c%d' % k, 1,
                            c + c.lower() if c.isalpha() else c)
        said = [] if func == known else ['E_FUNC_BAD_CASE']
    elif which == 'more':
        func += ctx.str('more', 1, 'alnum:_')
        said = ['E_FUNC_MISSING']
    else:
        func = func[:-1]
        said = ['E_FUNC_MISSING']
    if which != 'as is':
        ctx.assume(upper(func) not in FUNC_MODULE)
    ctx.cover(which)
    got = verdict(ctx, '${' + func + '(x=y)}', said, [
        'E_VAR_BAD_TOKENS', 'E_FUNC_BAD_ARGS'])
    ctx.check(got.func == func and got.args == 'x=y', 'parts')
    for m in msgs('E_FUNC_BAD_CASE'):
        ctx.check(m.fmtkwargs['func'] == func and
                  m.fmtkwargs['proper'] == known, 'case in message')


def call(ctx, n, alpha, func, end, before=''):
    """What are the arguments, and what comes after them?"""
    text = before + ctx.str('text', n, alpha) + end
    fresh()
    said = name_says(func)
    pos = text.rfind(')')
    dontcare = []
    start = length = None
    if pos < 0:
        said.append('E_FUNC_PARENS')
        args = text
    else:
        args = text[:pos]
        tail = text[pos + 1:]
        if tail and tail[0] != ':':
            said.append('E_FUNC_TAIL')
            dontcare = ['E_VAR_SUBSTR_START', 'E_VAR_SUBSTR_LENGTH',
                        'E_VAR_SUBSTR_ARGS']
        elif tail:
            start, length, more = meaning(tail[1:])
            said += more
    if not balanced(args, Quiet()):
        said.append('W_FUNC_BALANCE')
    got = verdict(ctx, '${' + func + '(' + text + '}', said, dontcare)
    ctx.check(got.func == func, 'function', got.func)
    ctx.check(got.args == args, 'arguments', got.args)
    if start is None:
        ctx.check(str(got) == '${' + func + '(' + args + ')}', 'no slice')
    else:
        ctx.cover('slice')
        ctx.check((got.start, got.length) == (start, length), 'slice')


class Quiet(object):
    def cover(self, what):
        pass


def dynamic(ctx, form, said, func, args):
    a = ctx.str('a', 1, 'abcdefghijklmnopqrstuvwxyz')
    b = ctx.str('b', 1, '123456789')
    fresh()
    text = form.replace('@', a).replace('#', b)
    got = verdict(ctx, text, said)
    ctx.check(str(got.func) == func.replace('@', a), 'function')
    ctx.check(str(got.args) == args.replace('@', a), 'arguments')
    ctx.check(bool(said) or str(got) == text, 'text')


def jobs(tier):
    big = tier != 'quick'
    out = []
    out.append(('name1', called, {'n': 1, 'alpha': 'ascii:-(){}[]$: '}))
    out.append(('name2', called, {'n': 2, 'alpha': 'ifdbIFDB_x'}))
    out.append(('name3', called, {
        'n': 3, 'alpha': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVW'
                         'XYZ0123456789_'}))
    out.append(('uni', called, {'n': 2, 'alpha': 'IF\u0131\u0130\xdfif'}))
    for known in sorted(FUNC_MODULE):
        out.append(('case-' + known, cased, {'known': known}))
    for func in ('CUT', 'cut', 'FOO') if big else ('CUT', 'FOO'):
        for end in ('', ')'):
            for n in range(0, (7 if big else 6) if func == 'CUT' else 4):
                out.append(('call-%s%d%d' % (func, len(end), n), call, {
                    'n': n, 'alpha': '():,01a', 'func': func, 'end': end}))
    for k, before in enumerate((
            'a' * 400, 'a,b(c):1' * 20, '(' * 12 + ')' * 12, 'x):1', 'x):-12',
            'x:1)):1:2')):
        for end in ('', ')'):
            out.append(('far%d%d' % (k, len(end)), call, {
                'n': 3, 'alpha': '():-,0a', 'func': 'CUT', 'end': end,
                'before': before}))
    for n in range(1, 5):
        out.append(('quote%d' % n, call, {
            'n': n, 'alpha': ')"\'[]a ', 'func': 'CUT', 'end': ')'}))
    forms = [
        ('${CUT(${@})}', [], 'CUT', '${@}'),
        ('${CUT(x${@}y)}', [], 'CUT', 'x${@}y'),
        ('${CUT(${@}):#}', [], 'CUT', '${@}'),
        ('${CUT(${@},${@}):#:-#}', [], 'CUT', '${@},${@}'),
        ('${CUT(${CUT(@)})}', [], 'CUT', '${CUT(@)}'),
        ('${CUT(${CUT(@):1}:2)}', [], 'CUT', '${CUT(@):1}:2'),
        ('${${@}(x)}', ['W_FUNC_DYNAMIC'], '${@}', 'x'),
        ('${C${@}(x)}', ['W_FUNC_DYNAMIC'], 'C${@}', 'x'),
        ('${${@}T(${@}):#}', ['W_FUNC_DYNAMIC'], '${@}T', '${@}'),
        ('${C${@}T(x):#}', ['W_FUNC_DYNAMIC'], 'C${@}T', 'x'),
        ('${CUT(x)${@}:#}', ['E_FUNC_TAIL'], 'CUT', 'x'),
        ('${CUT(${@}}', ['E_FUNC_PARENS'], 'CUT', '${@}'),
        ('${CUT(x${@}}', ['E_FUNC_PARENS'], 'CUT', 'x${@}'),
        ('${CUT(x(${@})}', ['W_FUNC_BALANCE'], 'CUT', 'x(${@}'),
        ('${CUT($[@+#])}', [], 'CUT', None),
    ]
    for k, (form, said, func, args) in enumerate(forms):
        if args is not None:
            out.append(('dyn%d' % k, dynamic, {
                'form': form, 'said': said, 'func': func, 'args': args}))
    return out
