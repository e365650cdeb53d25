"""Shared by the application harnesses."""
from props import dp
from props.common import fresh

# The applications of up to four letters.
SHORT = ['AGI', 'Dial', 'EAGI', 'Echo', 'Exec', 'Goto', 'Log', 'NoOp', 'Page',
         'Read', 'Set', 'Wait']
HEAD = [b'[general]\n', b'[globals]\n', b'[a]\n']


def lower(text):
    return ''.join(chr(ord(c) + 32) if 'A' <= c and c <= 'Z' else c
                   for c in text)


def name_says(name, known):
    if name in known:
        return []
    if lower(name) in [lower(k) for k in known]:
        return ['W_APP_BAD_CASE']
    return ['E_APP_MISSING']


def lint(text, exten='1,1'):
    """Lints one application; the dialplan."""
    fresh()
    return dp.load({'m': HEAD + [
        ('exten => ' + exten + ',' + text + '\n').encode('ascii')]})


def separate(text, delim, remove):
    """What main/app.c: __ast_app_separate_args makes of it: a list of lists
    of elements. The text is anything that can be iterated over."""
    buf = list(text)
    out = [[]]
    paren = bracket = 0
    quote = False
    i = 0
    while i < len(buf):
        c = buf[i]
        if not isinstance(c, str):
            out[-1].append(c)
        elif c == '(':
            paren += 1
            out[-1].append(c)
        elif c == ')':
            paren = max(0, paren - 1)
            out[-1].append(c)
        elif c == '[':
            bracket += 1
            out[-1].append(c)
        elif c == ']':
            bracket = max(0, bracket - 1)
            out[-1].append(c)
        elif c == '"':
            quote = not quote
            if not remove:
                out[-1].append(c)
        elif c == '\\':
            if not remove:
                out[-1].append(c)
            i += 1
            if i < len(buf):
                out[-1].append(buf[i])
        elif c == delim and not paren and not bracket and not quote:
            out.append([])
        else:
            out[-1].append(c)
        i += 1
    return out


def args_of(text, delim=',', remove=True):
    """The same for plain text: a list of strings."""
    return [''.join(a) for a in separate(text, delim, remove)]
