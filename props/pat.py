"""An independent reading of Asterisk extension patterns, shared by P01-P04.

items(p) -> list of ('c', ch) | ('r', [(lo, hi)...]) | ('.',) | ('!',) and
finally ('bad',) if there is an unterminated or an empty set there."""


def items(p):
    if p[0] != '_':
        return [('c', ch) for ch in p if ch != '-']
    out = []
    i = 1
    n = len(p)
    while i < n:
        ch = p[i]
        i += 1
        if ch == '-':
            continue
        if ch in 'Xx':
            out.append(('r', [('0', '9')]))
        elif ch in 'Zz':
            out.append(('r', [('1', '9')]))
        elif ch in 'Nn':
            out.append(('r', [('2', '9')]))
        elif ch == '.' or ch == '!':
            out.append((ch,))
        elif ch == '[':
            end = p.find(']', i)
            if end < 0 or end == i:
                out.append(('bad',))
                return out
            body = p[i:end]
            i = end + 1
            rs = []
            j = 0
            while j < len(body):
                if j + 2 < len(body) and body[j + 1] == '-':
                    a, b = body[j], body[j + 2]
                    if a > b:
                        a, b = b, a
                    rs.append((a, b))
                    j += 3
                else:
                    rs.append((body[j], body[j]))
                    j += 1
            out.append(('r', rs))
        else:
            out.append(('c', ch))
    return out


def inset(rs, ch):
    for lo, hi in rs:
        if lo <= ch and ch <= hi:
            return True
    return False


def item(it, ch):
    if it[0] == 'c':
        return it[1] == ch
    return inset(it[1], ch)


def matches(p, ext):
    its = items(p)
    e = [ch for ch in ext if ch != '-']
    for k, it in enumerate(its):
        if it[0] == '!':
            return True
        if k >= len(e) or it[0] == 'bad':
            return False
        if it[0] == '.':
            return True
        if not item(it, e[k]):
            return False
    return len(e) == len(its)


def empty_item(it):
    """Only a dash in the set: no extension can match."""
    return it[0] == 'r' and all(lo == '-' and hi == '-' for lo, hi in it[1])


def malformed(its):
    return len(its) > 0 and its[-1][0] == 'bad'
