"""R01: whatever the dialplan holds, it is read to the end."""
from props import dp
from props.asterisk import APP_MODULE, FUNC_MODULE
from props.common import fresh, msgs, names

BOUNDS = {
    'quick': 'any line of up to 2 bytes, and of up to 4 characters out of '
             'fourteen, in each section and at the start; anything of up to '
             '4 characters out of thirteen behind exten, and of up to 4 out '
             'of seven behind eight other keywords; each kind of '
             'application and function with up to 3 pieces out of fifteen '
             'characters and seven variables, every known one with up to 1; '
             'one character out of fourteen, of which twelve are '
             'not ASCII, in each of 47 places',
    'thorough': 'one more of each (two for whole lines)',
}
OUTSIDE = 'longer lines (what is looked at is bounded by the structure of ' \
    'the line: names, arguments, variables)'
COVERS = ('quiet', 'said', 'section', 'exten', 'keyword', 'application',
          'function', 'jump', 'other digits')
# One of each kind, and some that do not exist.
APPS = ['Directory', 'ExecIf', 'Answer', 'Background', 'Goto', 'GotoIf',
        'GotoIfTime', 'Set', 'VoiceMail', 'Milliwatt', 'Gosub', 'GosubIf',
        'Originate', 'NoOp', 'Nope', 'MSet', 'Dial']
FUNCS = ['GROUP', 'SET', 'LEN', 'AUDIOHOOK_INHERIT', 'INC', 'DEC', 'NOPE',
         'IF', 'CUT']
EVERY = {'apps': sorted(APP_MODULE), 'funcs': sorted(FUNC_MODULE)}
WORDS = ['exten', 'same', 'include', 'switch', 'ignorepat', 'hint',
         'eswitch', 'lswitch', 'foo']
SECTIONS = [[b'[a]\n'], [b'[general]\n', b'[globals]\n'], [b'[globals]\n'],
            []]
VARS = ['${x}', '${x:1}', '${LEN(y)}', '$[1]', '${a${b}}', '${', '$[${x}']


setup = dp.warm


def lint(lines):
    fresh()
    plan = dp.load({'m': lines})
    plan.walk_jump_destinations()
    plan.format_as_dialplan_show()
    return plan


def judge(ctx, lines, what):
    lint(lines)     # Does not raise, and ends.
    said = names()
    ctx.cover('said' if said else 'quiet')
    ctx.cover(what)
    for name in said:
        for m in msgs(name):
            w = m.where
            if w.lineno == 0:
                # About the file: a section that is not there.
                ctx.check(w.filename == 'm' and name in (
                    'H_DP_GENERAL_MISPLACED', 'H_DP_GLOBALS_MISPLACED'),
                    'file', name)
                continue
            ctx.check(w.filename == 'm' and 1 <= w.lineno and
                      w.lineno <= len(lines) and
                      lines[w.lineno - 1] == w.line, 'place', name)
            if name.startswith('E_DP_GOTO'):
                ctx.cover('jump')
    ctx.observe('said', said)


def line(ctx, n, section, alpha, tail):
    text = ctx.bytes('text', n, alpha)
    judge(ctx, SECTIONS[section] + [text + tail], 'section')


def keyword(ctx, word, sep, n, alpha):
    text = ctx.str('text', n, alpha)
    judge(ctx, [b'[general]\n', b'[globals]\n', b'[a]\n',
                b'exten => 1,1,NoOp()\n',
                (word + sep + text + '\n').encode('ascii')],
          'exten' if word == 'exten' else 'keyword')


def pieces(ctx, n, alpha):
    out = ''
    for i in range(n):
        k = ctx.choice('piece%d' % i, [None] + VARS)
        out += ctx.str('c%d' % i, 1, alpha) if k is None else k
    return out


def appl(ctx, name, n, alpha):
    data = pieces(ctx, n, alpha)
    judge(ctx, [b'[general]\n', b'[globals]\n', b'[a]\n',
                ('exten => 1,1,' + name + '(' + data + ')\n').encode(
                    'ascii')], 'application')


def func(ctx, name, n, alpha, how):
    data = pieces(ctx, n, alpha)
    judge(ctx, [b'[general]\n', b'[globals]\n', b'[a]\n',
                ('exten => 1,1,' + how % (name + '(' + data + ')') + '\n')
                .encode('ascii')], 'function')


def every(ctx, which, n):
    name = ctx.choice('name', EVERY[which])
    if which == 'apps':
        appl(ctx, name, n, ALPHA)
    else:
        func(ctx, name, n, ALPHA, ctx.choice(
            'how', ['NoOp(${%s})', 'Set(%s=1)']))


# Digits and letters that are not those of ASCII, and some that are.
UNI = '\u00b2\u0663\u0969\uff11\u2460\u00bd\u00e9\u00df\u0130\u0131\u00a0\u200b9a'
UNIFORMS = [
    'exten => @,1,NoOp()', 'exten => _@.,1,NoOp()', 'exten => _[@],1,NoOp()',
    'exten => _[1-@],1,NoOp()', 'exten => _[@-9],1,NoOp()',
    'exten => 1,@,NoOp()', 'exten => 1,1@,NoOp()', 'exten => 1,@(a),NoOp()',
    'exten => 1,2(@),NoOp()', 'same => @,NoOp()', 'exten => 1,2,@()',
    'exten => 1,2,@', 'exten => 1,2,Goto(@)', 'exten => 1,2,Goto(1@)',
    'exten => 1,2,Goto(@,1)', 'exten => 1,2,Goto(a,1,@)',
    'exten => 1,2,GotoIf(@?@:1@)', 'exten => 1,2,GosubIf(${x}?1,@(1))',
    'exten => 1,2,Gosub(@,1(@))', 'exten => 1,2,Background(a,@)',
    'exten => 1,2,NoOp(${@})', 'exten => 1,2,NoOp(${x:@})',
    'exten => 1,2,NoOp(${x:-@})', 'exten => 1,2,NoOp(${x:1:@})',
    'exten => 1,2,NoOp(${x:@@:1})', 'exten => 1,2,NoOp(${@(x)})',
    'exten => 1,2,NoOp(${CUT(x,@)})', 'exten => 1,2,NoOp(${CUT(x):@})',
    'exten => 1,2,NoOp($[@ + 1])', 'exten => 1,2,Set(@=1)',
    'exten => 1,2,Set(x=${@}${x:1@})', 'exten => 1,2,ExecIf(@?Goto(@))',
    'exten => 1,2,Wait(@)', 'exten => 1,2,Dial(@,@,@)',
    'exten => 1,2,Directory(a,b,@)', 'exten => 1,2,Originate(a,exten,a,@,@)',
    'exten => 1,2,Milliwatt(@)', 'include => @', 'include => a,@', '@ => @',
    '@=1', '[@]', '#include @', '#exec @', 'switch => @', '@']


def uni(ctx, form, n):
    judge(ctx, [b'[general]\n', b'[globals]\n', b'[a]\n',
                b'exten => 1,1,NoOp()\n', form.replace(
                    '@', ctx.str('c', n, UNI)).encode('utf-8') + b'\n'],
          'other digits')


ALPHA = 'a1,?:=()"\\|&[] $}'


def jobs(tier):
    big = tier != 'quick'
    more = 1 if big else 0
    out = []
    for s in range(len(SECTIONS)):
        for n in range(0, 3):
            out.append(('bytes%d-%d' % (n, s), line, {
                'n': n, 'section': s, 'alpha': 'byte:', 'tail': b''}))
        for n in range(1, 5 + 2 * more):
            out.append(('line%d-%d' % (n, s), line, {
                'n': n, 'section': s, 'alpha': 'a[]=>;\\,#( \t\r+',
                'tail': b'\n'}))
    for n in range(0, 5 + more):
        for sep in (' => ', '='):
            for word in ('exten', 'same'):
                out.append(('%s%d%s' % (word, n, sep.strip()), keyword, {
                    'word': word, 'sep': sep, 'n': n,
                    'alpha': '1_nX,.()[]-/ '}))
            for word in WORDS[2:]:
                out.append(('%s%d%s' % (word, n, sep.strip()), keyword, {
                    'word': word, 'sep': sep, 'n': n, 'alpha': 'a1,@/$ '}))
    for n in range(1, 5 + more):
        out.append(('prio%d' % n, keyword, {
            'word': 'exten', 'sep': ' => 1,', 'n': n,
            'alpha': '1n+s()a, -'}))
        out.append(('app%d' % n, keyword, {
            'word': 'exten', 'sep': ' => 1,1,', 'n': n,
            'alpha': 'aN(), ${}[]'}))
    for name in APPS:
        for n in range(0, 4 + more):
            out.append(('%s%d' % (name, n), appl, {
                'name': name, 'n': n, 'alpha': ALPHA}))
    for name in FUNCS:
        for n in range(0, 4 + more):
            for i, how in enumerate(['NoOp(${%s})', 'Set(%s=1)',
                                     'ExecIf($[${%s:1}]?NoOp())']):
                if n < 3 + more or i == 0:
                    out.append(('%s%d-%d' % (name, n, i), func, {
                        'name': name, 'n': n, 'alpha': ALPHA, 'how': how}))
    for n in range(1, 2 + more):
        for form in UNIFORMS:
            out.append(('uni%d-%s' % (n, form), uni, {'form': form, 'n': n}))
    for n in range(0, 2):
        for which in ('apps', 'funcs'):
            out.append(('every-%s%d' % (which, n), every, {
                'which': which, 'n': n}))
    return out
