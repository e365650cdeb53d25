"""V04: could a text with variables come out as this value?"""
from asterisklint.varfun import VarLoader
from asterisklint.where import DUMMY_WHERE
from props import dp
from props.common import fresh

BOUNDS = {
    'quick': 'text of one or two variables with up to two characters before, '
             'between and after them, against any value of up to 3 '
             'characters, ASCII; against any priority of 0..99; two '
             'characters around or behind 60 others in text and value, and '
             'text of 8 variables',
    'thorough': 'values of up to 4 characters',
}
OUTSIDE = 'longer text and values; newlines'
COVERS = ('yes', 'no', 'number')
setup = dp.warm


def fits(pieces, value):
    """pieces: the text around the variables; each variable is any text."""
    first, last = pieces[0], pieces[-1]
    if not value.startswith(first) or not value.endswith(last):
        return False
    if len(value) < len(first) + len(last):
        return False
    middle = value[len(first):len(value) - len(last)]
    for p in pieces[1:-1]:
        for i in range(len(middle) + 1):
            if middle[i:i + len(p)] == p:
                middle = middle[i + len(p):]
                break
        else:
            return False
    return True


def run(ctx, lens, n, forms, alpha):
    pieces = [ctx.str('piece%d' % i, k, alpha) for i, k in enumerate(lens)]
    if n is None:
        value = ctx.int('value', 0, 99)
        shown = str(value)
        ctx.cover('number')
    else:
        value = shown = ctx.str('value', n, alpha)
    text = pieces[0]
    for f, p in zip(forms, pieces[1:]):
        text += f + p
    fresh()
    var = VarLoader().parse_variables(text, DUMMY_WHERE)
    got = bool(var.could_match(value))
    want = fits(pieces, shown)
    ctx.cover('yes' if want else 'no')
    ctx.observe('got', got)
    ctx.check(got == want, 'could match', (text, shown, got, want))


def far(ctx, head, forms, tail, vhead, vtail):
    """Long text; forms: what stands between the variables."""
    alpha = 'ab.*'
    pieces = [head + ctx.str('one', 1, alpha)] + forms + \
        [ctx.str('two', 1, alpha) + tail]
    value = vhead + ctx.str('value', 2, alpha) + vtail
    text = '${v}'.join(pieces)
    fresh()
    var = VarLoader().parse_variables(text, DUMMY_WHERE)
    got = bool(var.could_match(value))
    want = fits(pieces, value)
    ctx.cover('yes' if want else 'no')
    ctx.check(got == want, 'could match', (text, value, got, want))


def jobs(tier):
    big = tier != 'quick'
    ascii_ = 'ascii:-\n\r${}[]'
    out = []
    for n in range(0, 5 if big else 4):
        for lens in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1)):
            out.append(('one%d%d-%d' % (lens + (n,)), run, {
                'lens': lens, 'n': n, 'forms': ['${a}'], 'alpha': ascii_}))
        for lens in ((0, 1, 0), (1, 1, 0), (1, 1, 1), (0, 2, 0)):
            out.append(('two%d%d%d-%d' % (lens + (n,)), run, {
                'lens': lens, 'n': n, 'forms': ['${a:1}', '$[${b}+1]'],
                'alpha': 'ab.*'}))
    for k, form in enumerate(('${a:1}', '$[1+1]', '${}', '${CUT(x,y,1)}',
                              '${${b}}', '${a:${b}}')):
        out.append(('form%d' % k, run, {
            'lens': (1, 0), 'n': 1, 'forms': [form], 'alpha': 'ascii:-\n\r${}[]'}))
    for k, (head, forms, tail, vhead, vtail) in enumerate((
            ('x' * 60, [], '', 'x' * 60, ''),
            ('', [], 'y' * 60, '', 'y' * 60),
            ('x' * 30, [], 'y' * 30, 'x' * 30, 'y' * 30),
            ('x' * 30, [], 'y' * 30, 'x' * 29, 'y' * 30),
            ('', ['b', '.', 'a', 'c', '-', '1'], '', 'ab.', 'aaac-1a'),
            ('', ['label', 'end'], '', 'a-label-', '-end.'))):
        out.append(('far%d' % k, far, {
            'head': head, 'forms': forms, 'tail': tail, 'vhead': vhead,
            'vtail': vtail}))
    for lens in ((1, 0), (0, 1), (1, 1), (0, 0)):
        out.append(('prio%d%d' % lens, run, {
            'lens': lens, 'n': None, 'forms': ['${a}'],
            'alpha': '0123456789a'}))
    return out
