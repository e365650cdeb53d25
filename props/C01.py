"""C01: what each configuration line is taken for."""
from asterisklint.config import ConfigParser
from asterisklint.configobj import Context, EmptyLine, Varset
from asterisklint.file import FileReader
from props.common import Opener, fresh, names, count, msgs

BOUNDS = {
    'quick': 'one line of 0..6 ASCII characters (all but LF, semicolon, '
             'backslash); 1..3 characters of the whole BMP; templates of '
             '1..4 characters after a section name; lines of up to four characters '
             'with escaped semicolons; two such characters '
             'between eight beginnings and five ends of up to 600',
    'thorough': '0..7 ASCII characters, 1..4 BMP characters',
}
OUTSIDE = 'longer lines; U+001C..1F and U+180E, which PyPy and CPython ' \
    'strip differently; the contents of directives (C02)'
COVERS = ('context', 'template', 'arrow', 'equals', 'empty', 'directive',
          'bad', 'same')


class Reader(ConfigParser, FileReader):
    pass


def spec(s):
    """-> (kind, fields..., messages)"""
    n = len(s)
    lead = 0
    while lead < n and s[lead].isspace():
        lead += 1
    if lead == n:
        return ('empty',), []
    if s[lead] == '#':
        return ('directive',), None
    if s[lead] == '[':
        end = s.find(']', lead)
        if end >= 0:
            bol = ['W_WSH_BOL'] if lead else []
            rest = s[end + 1:]
            name = s[lead + 1:end]
            if not rest:
                return ('context', name), bol
            k = 0
            while k < len(rest) and rest[k].isspace():
                k += 1
            tail = rest[k:]
            if len(tail) >= 3 and tail[0] == '(' and tail[-1] == ')' and \
                    ')' not in tail[1:-1] and '+' not in tail[1:-1]:
                return ('template', name), bol + ['I_NOTIMPL_TEMPLATES']
    eq = s.find('=')
    if eq < 0:
        return ('bad',), ['E_CONF_BAD_LINE']
    arrow = s[eq + 1:eq + 2] == '>'
    a = eq
    while a and s[a - 1].isspace():
        a -= 1
    b = eq + (2 if arrow else 1)
    while b < n and s[b].isspace():
        b += 1
    sep = s[a:b]
    out = []
    if arrow:
        if sep != ' => ':
            out.append('W_WSH_OBJSET')
    elif sep != '=':
        out.append('W_WSH_VARSET')
    var = s[:a]
    if var and var[0] in ' \t':
        while var and var[0] in ' \t':
            var = var[1:]
        if var != 'same':
            out.append('W_WSH_BOL')
    return ('arrow' if arrow else 'equals', var, s[b:]), out


def judge(ctx, text, body, comment):
    """text: the raw line; body: what is left for classification."""
    opener = Opener([('a.conf', [text, b'\n'])])
    reader = Reader(opener=opener)
    reader.include('a.conf')
    got = list(reader)
    want, warn = spec(body)
    kind = want[0]
    ctx.cover(kind)
    els = [e for e in got if e.where.lineno == 1]
    ctx.check(len([e for e in got if e.where.lineno == 2]) == 1,
              'the next line is still read')
    ctx.observe('kind', [type(e).__name__ for e in els])
    ctx.observe('names', names())
    if kind == 'directive':
        ctx.check(els == [], 'directive yields nothing')
        return
    for name in ('W_WSH_BOL', 'W_WSH_OBJSET', 'W_WSH_VARSET',
                 'I_NOTIMPL_TEMPLATES', 'E_CONF_BAD_LINE'):
        ctx.check(count(name) == (1 if name in warn else 0), name,
                  (names(), want))
        for m in msgs(name):
            ctx.check(m.where.lineno == 1, 'position of ' + name)
    if kind == 'bad':
        ctx.check(els == [], 'bad line yields nothing', want)
        return
    ctx.check(len(els) == 1, 'one element per line', want)
    e = els[0]
    ctx.check(e.comment is comment, 'comment flag')
    if kind == 'empty':
        ctx.check(isinstance(e, EmptyLine), 'empty line', want)
    elif kind in ('context', 'template'):
        ctx.check(isinstance(e, Context), 'context', want)
        ctx.check(e.name == want[1], 'context name', (e.name, want))
    else:
        ctx.check(isinstance(e, Varset), 'varset', want)
        ctx.check(e.variable == want[1], 'variable', (e.variable, want))
        ctx.check(e.value == want[2], 'value', (e.value, want))
        ctx.check(e.arrow is (kind == 'arrow'), 'arrow', want)
        if want[1] == 'same':
            ctx.cover('same')


def strip(s):
    n = len(s)
    while n and s[n - 1] in ' \t':
        n -= 1
    return s[:n]


def line(ctx, n, alpha, enc, comment):
    fresh()
    s = ctx.str('line', n, alpha)
    body = strip(s)
    text = s + (' ;c' if comment else '')
    if not comment and n and s[-1:] == '\r':
        body = strip(s[:-1])
    judge(ctx, (text + '\n').encode(enc), body, comment)


HEADS = ('', '[' + 'n' * 90, 'v' * 90, 'v' * 40 + ' => ' + 'w' * 300,
         'long name=' + '1,2(3)' * 100, '[' + 'n' * 90 + ']', 'a' * 79 + ' ',
         'exten => 100,1,Dial(SIP/peer,30,tT)')
TAILS = ('', 'x' * 300, '=' + 'y' * 300, ']', '])')


def far(ctx, head, tail):
    fresh()
    text = HEADS[head] + ctx.str('text', 2, 'asciiq:-\n\r;\\') + TAILS[tail]
    judge(ctx, (text + '\n').encode('ascii'), strip(text), False)


def template(ctx, n, m):
    fresh()
    ws = ctx.str('ws', n, ' \ta')
    s = ctx.str('tpl', m, 'asciiq:-\n\r;\\')
    text = '[ctx]' + ws + '(' + s + ')'
    judge(ctx, (text + '\n').encode('ascii'), text, False)


def escaped(ctx, n):
    """A semicolon that does not start a comment."""
    fresh()
    s = ctx.str('line', n, 'asciiq:-\n\r\\')
    ctx.assume(';' in s)
    text = ''
    for c in s:
        text += '\\;' if c == ';' else c
    judge(ctx, (text + '\n').encode('ascii'), strip(s), False)


def same(ctx, n):
    fresh()
    ws = ctx.str('ws', n, ' \t')
    mid = ctx.str('sep', 4, ' \t=>')
    text = ws + 'same' + mid + 'n,NoOp'
    judge(ctx, (text + '\n').encode('ascii'), text, False)


def jobs(tier):
    out = []
    big = tier != 'quick'
    for n in range(0, 8 if big else 7):
        out.append(('ascii%d' % n, line, {
            'n': n, 'alpha': 'asciiq:-\n;\\', 'enc': 'ascii',
            'comment': False}))
    for n in range(0, 5):
        out.append(('comment%d' % n, line, {
            'n': n, 'alpha': 'asciiq:-\n\r;\\', 'enc': 'ascii',
            'comment': True}))
    for n in range(1, 5 if big else 4):
        out.append(('bmp%d' % n, line, {
            'n': n, 'alpha': 'bmpq:-\n;\\', 'enc': 'utf-8',
            'comment': False}))
    for head in range(len(HEADS)):
        for tail in range(len(TAILS)):
            out.append(('far%d-%d' % (head, tail), far,
                        {'head': head, 'tail': tail}))
    for n in range(0, 3):
        for m in range(0, 5):
            out.append(('template%d-%d' % (n, m), template,
                        {'n': n, 'm': m}))
    for n in range(1, 6 if big else 5):
        out.append(('escaped%d' % n, escaped, {'n': n}))
    for n in range(0, 4):
        out.append(('same%d' % n, same, {'n': n}))
    return out
