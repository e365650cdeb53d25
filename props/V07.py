"""V07: assignments: Set(x=y), ${SET(x=y)}."""
from asterisklint.varfun import FuncLoader
from props import dp
from props.common import fresh, names, msgs
from props.V05 import balanced
from props.V06 import Quiet, name_says, upper

BOUNDS = {
    'quick': 'any text of up to 6 characters out of seven in Set(..), of up '
             'to 4 in ${SET(..)}; any two characters, ASCII; calls of '
             'functions of any name of two or three letters; variables in '
             'each place; three characters behind or before six others of up '
             'to 400',
    'thorough': 'up to 7 and 5 characters',
}
OUTSIDE = 'longer text'
COVERS = ('E_ASSIGN_EMPTY', 'E_ASSIGN_NO_EQUALS', 'W_ASSIGN_SPACES',
          'E_FUNC_MISSING', 'E_FUNC_BAD_CASE', 'W_FUNC_BALANCE',
          'W_FUNC_DYNAMIC', 'fine')
setup = dp.warm
HOLE = '\n'     # stands for a variable


def expect(text):
    if text == '':
        return ['E_ASSIGN_EMPTY']
    pos = text.find('=')
    if pos < 0:
        return ['E_ASSIGN_NO_EQUALS']
    dest = text[:pos]
    said = []
    if ' ' in dest:
        said.append('W_ASSIGN_SPACES')
    if dest.endswith(')'):
        par = dest.find('(')
        name = dest if par < 0 else dest[:par]
        if HOLE in name:
            said.append('W_FUNC_DYNAMIC')
            return said
        said += name_says(name)
        if par >= 0:
            if not balanced(dest[par + 1:-1], Quiet()):
                said.append('W_FUNC_BALANCE')
    return said


def lint(data):
    fresh()
    dp.load({'m': [b'[general]\n', b'[globals]\n', b'[a]\n',
                   ('exten => 1,1,' + data + '\n').encode('ascii')]})
    return [n for n in names() if n != 'W_APP_BALANCE']


def verdict(ctx, data, want):
    got = sorted(lint(data))
    for w in want or ['fine']:
        ctx.cover(w)
    ctx.observe('got', got)
    ctx.check(got == sorted(set(want)), 'messages', (data, got, want))


def app(ctx, n, alpha, before='', after=''):
    text = ctx.str('text', n, alpha)
    # SET() on the left reads its arguments as an assignment (see func).
    ctx.assume(not after or upper(text) != 'SET')
    text = before + text + after
    want = expect(text)
    verdict(ctx, 'Set(' + text + ')', want)
    for m in msgs('W_ASSIGN_SPACES'):
        ctx.check(m.fmtkwargs['name'] == text[:text.find('=')], 'name')
    for m in msgs('E_ASSIGN_NO_EQUALS'):
        ctx.check(m.fmtkwargs['data'] == text, 'data')


def func(ctx, n, alpha):
    text = ctx.str('text', n, alpha)
    want = expect(text)
    if not balanced(text, Quiet()):
        want.append('W_FUNC_BALANCE')
    verdict(ctx, 'NoOp(${SET(' + text + ')})', want)


def mixed(ctx, lens, var):
    parts = [ctx.str('part%d' % k, n, '=() D') for k, n in enumerate(lens)]
    verdict(ctx, 'Set(' + var.join(parts) + ')', expect(HOLE.join(parts)))


def dynamic(ctx, form, want):
    data = form.replace('@', ctx.str('a', 1, 'abcxyz'))
    verdict(ctx, data, want)


def jobs(tier):
    big = tier != 'quick'
    out = []
    for n in range(0, 8 if big else 7):
        out.append(('app%d' % n, app, {'n': n, 'alpha': '=() aD"'}))
    for n in range(0, 6 if big else 5):
        out.append(('func%d' % n, func, {'n': n, 'alpha': '=() aD"'}))
    for k, (before, after) in enumerate((
            ('n' * 90, 'v' * 300), ('CUT(' + 'a,' * 30, ')=x'),
            ('CUT' + '(' * 10, ')' * 9 + '=y'), ('a=' + '= ()' * 100, ''),
            ('', 'ab c=d'), ('__', 'VARIABLE_NAME=${x}'))):
        out.append(('far%d' % k, app, {
            'n': 3, 'alpha': '=() aD"', 'before': before, 'after': after}))
    for n in (1, 2):
        out.append(('ascii%d' % n, app, {
            'n': n, 'alpha': 'ascii:-\n\r$;\\ \t\0\x01\x02\x03\x04\x05\x06'
            '\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19'
            '\x1a\x1b\x1c\x1d\x1e\x1f\x7f'}))
    for n in (2, 3):
        out.append(('name%d' % n, app, {
            'n': n, 'alpha': 'ascii:-\n\r$;\\ \t\0\x01\x02\x03\x04\x05\x06'
            '\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19'
            '\x1a\x1b\x1c\x1d\x1e\x1f\x7f()[]{}"\'=', 'after': '(x)=y'}))
    for lens in ((0, 2), (2, 0), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3),
                 (1, 1, 1), (0, 1, 2), (2, 1, 0)):
        out.append(('mixed' + ''.join(map(str, lens)), mixed,
                    {'lens': lens, 'var': '${abc}'}))
    out.append(('mixedcut', mixed, {'lens': (2, 2), 'var': '${CUT(a=b,=,1)}'}))
    out.append(('mixedexp', mixed, {'lens': (2, 2), 'var': '$[(a = b)]'}))
    forms = [
        ('Set(@=${@})', []),
        ('Set(${@}=@)', []),
        ('Set(CUT(${@})=${@})', []),
        ('Set(${@}(${@})=@)', ['W_FUNC_DYNAMIC']),
        ('Set(@${@}(@)=@)', ['W_FUNC_DYNAMIC']),
        ('Set(${@})=@)', ['W_FUNC_DYNAMIC']),
        ('Set(${@})', ['E_ASSIGN_NO_EQUALS']),
        ('Set(${CUT(@=@,=,1)})', ['E_ASSIGN_NO_EQUALS']),
        ('Set(${CUT(@=@,=,1)}=@)', []),
        ('Set(@${@} =@)', ['W_ASSIGN_SPACES']),
        ('Set(@=${@} @)', []),
        ('Set(CUT(${@}=@)', []),
        ('Set(CUT("${@})=@)', ['W_FUNC_BALANCE']),
        ('Set(FOO(${@})=@)', ['E_FUNC_MISSING']),
        ('Set($[@=@])', ['E_ASSIGN_NO_EQUALS']),
        ('Set(@=$[@=@])', []),
        ('Set(${CUT(@)}=@)', []),
        ('NoOp(${SET(${@}=@)})', []),
        ('NoOp(${SET(CUT(${@})=@)})', []),
        ('NoOp(${SET(${@}(@)=@)})', ['W_FUNC_DYNAMIC']),
        ('NoOp(${SET(${@})})', ['E_ASSIGN_NO_EQUALS']),
    ]
    for k, (form, want) in enumerate(forms):
        out.append(('dyn%d' % k, dynamic, {'form': form, 'want': want}))
    return out
