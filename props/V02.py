"""V02: substrings ${x:start:length}."""
from asterisklint.varfun import VarLoader
from asterisklint.variable import Var, VarDynSlice, VarSlice
from asterisklint.where import DUMMY_WHERE
from props import dp
from props.common import fresh, names, msgs

BOUNDS = {
    'quick': 'any text of up to 6 characters after the colon, of ten '
             'characters; any one character of the BMP; any start and '
             'length of two digits and sign on any value of up to 4 '
             'characters, and of 14; a variable in each place; the same after a '
             'function and in a goto',
    'thorough': 'any text of up to 7 characters after the colon, values of '
                'up to 6 characters',
}
OUTSIDE = 'longer numbers and other values'
COVERS = ('E_VAR_SUBSTR_ARGS', 'E_VAR_SUBSTR_START', 'E_VAR_SUBSTR_LENGTH',
          'start', 'length', 'dynamic', 'beyond', 'empty')
setup = dp.warm
DIGITS = '0123456789'


def number(text):
    t = text[1:] if text.startswith('-') else text
    if not t or not all(c in DIGITS for c in t):
        return None
    value = 0
    for c in t:
        value = value * 10 + ord(c) - 48
    return -value if text.startswith('-') else value


def meaning(tail):
    """text after the first colon -> (start or None, length or None, said)"""
    parts = tail.split(':')
    if len(parts) > 2:
        return None, None, ['E_VAR_SUBSTR_ARGS']
    start = number(parts[0])
    if start is None:
        return None, None, ['E_VAR_SUBSTR_START']
    said = []
    length = None
    if len(parts) == 2:
        length = number(parts[1])
        if length is None:
            return None, None, ['E_VAR_SUBSTR_LENGTH']
        if length == 0 or (start < 0 and length > 0 and length >= -start):
            said.append('E_VAR_SUBSTR_LENGTH')
            length = None
    if start == 0 and length is None:
        said.append('E_VAR_SUBSTR_START')
        start = None
    return start, length, said


def substring(value, offset, length):
    """main/pbx_variables.c: substring()"""
    lr = len(value)
    if length is None:
        length = 1000000
    if offset == 0 and length >= lr:
        return value
    if offset < 0:
        offset = lr + offset
        if offset < 0:
            offset = 0
    if offset >= lr:
        return ''
    ret = value[offset:]
    if length >= 0 and length < lr - offset:
        ret = ret[:length]
    elif length < 0:
        if lr > offset - length:
            ret = ret[:lr + length - offset]
        else:
            ret = ''
    return ret


def bad(message):
    m = msgs(message)
    if not m:
        return None
    return list(m[0].fmtkwargs.values())[0]


def run(ctx, n, alpha, func=False):
    name = 'CALLERID(num)' if func else 'x'
    tail = ctx.str('tail', n, alpha)
    text = '${' + name + ':' + tail + '}'
    fresh()
    got = VarLoader().parse_variables(text, DUMMY_WHERE)
    start, length, said = meaning(tail)
    for s in said:
        ctx.cover(s)
    mine = sorted(names().items())
    ctx.observe('got', (str(got), mine))
    ctx.check(mine == sorted((s, 1) for s in said), 'messages',
              (mine, said))
    ctx.check(isinstance(got, Var), 'a variable')
    if start is None:
        ctx.check(str(got) == '${' + name + '}', 'no substring', str(got))
    else:
        ctx.check(got.start == start, 'start', got.start)
        ctx.check(got.length == length, 'length', got.length)
        ctx.cover('start' if length is None else 'length')
    parts = tail.split(':')
    if 'E_VAR_SUBSTR_START' in said:
        ctx.check(str(bad('E_VAR_SUBSTR_START')) ==
                  (parts[0] if start is None and number(parts[0]) is None
                   else '0'), 'value in message')
    if 'E_VAR_SUBSTR_LENGTH' in said and number(parts[1]) is None:
        ctx.check(str(bad('E_VAR_SUBSTR_LENGTH')) == parts[1],
                  'value in message')


def value(ctx, digits, m, via):
    start = ctx.str('start', digits[0], '0123456789')
    if ctx.bool('neg'):
        start = '-' + start
    tail = start
    if digits[1]:
        length = ctx.str('length', digits[1], '0123456789')
        if ctx.bool('lneg'):
            length = '-' + length
        tail += ':' + length
    offset, length, said = meaning(tail)
    fresh()
    text = '${EXTEN:' + tail + '}'
    if via == 'format':
        v = ctx.str('value', m, 'bmp')
        got = VarLoader().parse_variables(text, DUMMY_WHERE).format(EXTEN=v)
    else:
        v = ctx.str('value', m, 'abcdefg')
        plan = dp.load({'m': [b'[a]\n', ('exten => ' + v + ',1,Goto(' +
                                         text + ',1)\n').encode('ascii')]})
        dest = plan.jump_destinations
        ctx.check(len(dest) == 1, 'one destination')
        got = dest[0][1]
        ctx.check(dest[0][0] == 'a' and dest[0][2] == 1, 'the rest')
    want = v if offset is None else substring(v, offset, length)
    if offset is not None:
        if offset < -m:
            ctx.cover('beyond')
        if want == '':
            ctx.cover('empty')
    ctx.observe('got', got)
    ctx.check(got == want, 'value', (got, want))


def dynamic(ctx, form):
    """Variables in the places of the numbers."""
    text = form.replace('@', ctx.str('num', 1, '0123456789'))
    fresh()
    got = VarLoader().parse_variables(text, DUMMY_WHERE)
    ctx.cover('dynamic')
    ctx.check(str(got) == text, 'text', str(got))
    ctx.check(names() == {}, 'nothing to say', names())
    try:
        got.format(EXTEN='123', y='1', s='')
        ctx.check(False, 'cannot be known')
    except KeyError:
        pass


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 8 if big else 7):
        out.append(('tail%d' % n, run, {'n': n, 'alpha': '0123459:-a'}))
        if n < 4:
            out.append(('func%d' % n, run, {'n': n, 'alpha': '012:-a',
                                            'func': True}))
    # (Decimals of other scripts are numbers for Python.)
    out.append(('latin', run, {'n': 1, 'alpha': 'latin1:-${}[]()'}))
    out.append(('latin2', run, {'n': 2, 'alpha': '-0:\xb2\xb9\xbd+ '}))
    for digits in ((1, 0), (1, 1), (2, 0)):
        for m in range(0, 7 if big else 5):
            out.append(('value%d%d-%d' % (digits + (m,)), value,
                        {'digits': digits, 'm': m, 'via': 'format'}))
    for digits in ((2, 1), (1, 2), (2, 2), (3, 0), (1, 3)):
        out.append(('value%d%d-14' % digits, value, {
            'digits': digits, 'm': 14, 'via': 'format'}))
    for m in (1, 2, 3):
        out.append(('goto%d' % m, value,
                    {'digits': (1, 1), 'm': m, 'via': 'goto'}))
        out.append(('gotos%d' % m, value,
                    {'digits': (1, 0), 'm': m, 'via': 'goto'}))
    for k, form in enumerate((
            '${EXTEN:${y}}', '${EXTEN:${y}:1@}', '${EXTEN:1@:${y}}',
            '${EXTEN:-${y}}', '${EXTEN:0:-${y}}', '${EXTEN:$[@+1]}',
            '${EXTEN:${y}:-1@}', '$[${EXTEN}+@]', '$[EXTEN]',
            '${CALLERID(num):${y}:1@}', '${CALLERID(num):1@:${y}}',
            '${EXTEN:${y}${s}:1@}', 'a${EXTEN:${y}}', '${EXTEN${y}:1@}')):
        out.append(('dyn%d' % k, dynamic, {'form': form}))
    return out
