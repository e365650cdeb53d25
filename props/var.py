"""An independent reading of ${variables} and $[expressions].

parse(text) -> list of str | ('v', parts, slice) | ('e', parts), or None if a
bracket is not closed. A slice is None or (start, length) as text parts."""
from asterisklint.expression import Expr
from asterisklint.function import ReadFunc
from asterisklint.variable import SliceMixin, Var, VarDynSlice


class Unclosed(Exception):
    pass


def parse(text):
    out = []
    lit = ''
    i = 0
    n = len(text)
    while i < n:
        if text[i] == '$' and i + 1 < n and (
                text[i + 1] == '{' or text[i + 1] == '['):
            opener = text[i + 1]
            closer = '}' if opener == '{' else ']'
            depth = 1
            j = i + 2
            while depth:
                if j >= n:
                    raise Unclosed()
                if text[j] == opener:
                    depth += 1
                elif text[j] == closer:
                    depth -= 1
                j += 1
            if lit:
                out.append(lit)
                lit = ''
            inner = parse(text[i + 2:j - 1])
            out.append(('v' if opener == '{' else 'e', inner))
            i = j
        else:
            lit += text[i]
            i += 1
    if lit:
        out.append(lit)
    return out


def dump(v):
    """The same form, of what asterisklint made of it."""
    if isinstance(v, str):
        return [v] if v else []
    if v.name is None:
        out = []
        text = ''
        for item in v:
            if isinstance(item, str):
                text += item
                continue
            if text:
                out.append(text)
                text = ''
            out.extend(dump(item))
        return out + [text] if text else out
    if isinstance(v, ReadFunc):
        kind = ('f', dump(v.func), dump(v.args))
    elif isinstance(v, Expr):
        return [('e', dump(v.name))]
    else:
        kind = ('v', dump(v.name))
    if isinstance(v, (SliceMixin, VarDynSlice)):
        kind += ((num(v.start), num(v.length)),)
    return [kind]


def num(v):
    """A number or text with variables."""
    if v is None or isinstance(v, int):
        return v
    return dump(v)


def write(parts):
    """Parts to text."""
    out = ''
    for p in parts:
        if isinstance(p, tuple):
            if p[0] == 'v':
                out += '${' + write(p[1]) + '}'
            else:
                out += '$[' + write(p[1]) + ']'
        else:
            out += p
    return out
