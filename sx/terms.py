"""Hash-consed term language of the symbolic executor.

Integer terms are either Python ints (constants) or T objects; boolean terms
are Python bools (constants) or B objects.  Everything is kept in a normal
form in which constraints on one variable collapse into one set membership
``in(x, intervals)``.  All integers are mathematical integers (as Python's
are); translation to z3 uses linear integer arithmetic with div/mod by
constants.
"""
import z3

INF = 1 << 1024

# ---------------------------------------------------------------- intervals
# sorted, disjoint, non-adjacent tuple of (lo, hi) pairs


def iv_norm(pairs):
    out = []
    for lo, hi in sorted(pairs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_from(values):
    return iv_norm([(v, v) for v in values])


def iv_and(a, b):
    if a == b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_or(a, b):
    return iv_norm(a + b)


def iv_not(a):
    out = []
    lo = -INF
    for x, y in a:
        if x > lo:
            out.append((lo, x - 1))
        lo = y + 1
    if lo <= INF:
        out.append((lo, INF))
    return tuple(out)


def iv_shift(a, d):
    return tuple((max(-INF, x + d) if x > -INF else x,
                  min(INF, y + d) if y < INF else y) for x, y in a)


def iv_neg(a):
    return tuple((-y, -x) for x, y in reversed(a))


def iv_has(a, v):
    for x, y in a:
        if x <= v <= y:
            return True
    return False


def iv_size(a):
    return sum(y - x + 1 for x, y in a)


def iv_iter(a):
    for x, y in a:
        for v in range(x, y + 1):
            yield v


ALL = ((-INF, INF),)

# -------------------------------------------------------------------- terms


class T(object):
    """Integer term.  op: var(name) | lin(atoms, coefs, const) |
    ite(b, t, e) | div(t, n) | mod(t, n) | esc(t)"""
    __slots__ = ('op', 'args', 'id', 'lo', 'hi', 'vars', '_z', 'dom')

    def __repr__(self):
        return t_repr(self)


class B(object):
    """Boolean term.  op: in(t, iv) | eq0(lin) | ne0(lin) | le0(lin) |
    and(parts) | or(parts)"""
    __slots__ = ('op', 'args', 'id', 'vars', '_z', '_neg')

    def __repr__(self):
        return b_repr(self)


_table = {}
_next = [1]
EMPTY = frozenset()


def reset_table():
    _table.clear()


def table_size():
    return len(_table)


def _mk(cls, op, args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = cls()
        t.op = op
        t.args = args
        t.id = _next[0]
        _next[0] += 1
        t._z = None
        if cls is B:
            t._neg = None
        else:
            t.dom = None
        _table[key] = t
        return t, True
    return t, False


def var(name, dom):
    t, new = _mk(T, 'var', (name, dom))
    if new:
        t.lo = dom[0][0]
        t.hi = dom[-1][1]
        t.vars = frozenset((t,))
        t.dom = dom
    return t


def _lin(atoms, const):
    """atoms: dict T->coef (non-zero)"""
    if not atoms:
        return const
    if len(atoms) == 1 and const == 0:
        (a, c), = atoms.items()
        if c == 1:
            return a
    items = tuple(sorted(atoms.items(), key=lambda x: x[0].id))
    t, new = _mk(T, 'lin', (items, const))
    if new:
        lo = hi = const
        vs = EMPTY
        for a, c in items:
            if c > 0:
                lo += c * a.lo
                hi += c * a.hi
            else:
                lo += c * a.hi
                hi += c * a.lo
            vs = vs | a.vars
        t.lo, t.hi, t.vars = lo, hi, vs
    return t


def _parts(t):
    if t.op == 'lin':
        return dict(t.args[0]), t.args[1]
    return {t: 1}, 0


def add(a, b):
    if type(a) is int:
        if type(b) is int:
            return a + b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        at, ac = _parts(a)
        return _lin(at, ac + b)
    at, ac = _parts(a)
    bt, bc = _parts(b)
    for x, c in bt.items():
        n = at.get(x, 0) + c
        if n:
            at[x] = n
        else:
            del at[x]
    return _lin(at, ac + bc)


def mulc(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    at, ac = _parts(a)
    return _lin(dict((x, c * k) for x, c in at.items()), ac * k)


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, mulc(b, -1))


def lo_of(a):
    return a if type(a) is int else a.lo


def hi_of(a):
    return a if type(a) is int else a.hi


def divc(a, k):
    assert k > 0
    if type(a) is int:
        return a // k
    if k == 1:
        return a
    ql, qh = a.lo // k, a.hi // k
    if ql == qh:
        return ql
    t, new = _mk(T, 'div', (a, k))
    if new:
        t.lo, t.hi, t.vars = ql, qh, a.vars
    return t


def modc(a, k):
    assert k > 0
    if type(a) is int:
        return a % k
    if k == 1:
        return 0
    if a.lo // k == a.hi // k:
        return add(a, -(a.lo // k) * k)
    t, new = _mk(T, 'mod', (a, k))
    if new:
        t.lo, t.hi, t.vars = 0, k - 1, a.vars
    return t


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    t, new = _mk(T, 'ite', (c, a, b))
    if new:
        t.lo = min(lo_of(a), lo_of(b))
        t.hi = max(hi_of(a), hi_of(b))
        vs = c.vars
        if type(a) is not int:
            vs = vs | a.vars
        if type(b) is not int:
            vs = vs | b.vars
        t.vars = vs
    return t


def esc(a):
    """Marker: this character is to be taken literally in a regex."""
    if type(a) is int:
        return a
    t, new = _mk(T, 'esc', (a,))
    if new:
        t.lo, t.hi, t.vars = a.lo, a.hi, a.vars
    return t


def unesc(a):
    if type(a) is not int and a.op == 'esc':
        return a.args[0]
    return a

# ----------------------------------------------------------------- booleans


def isin(t, iv):
    if type(t) is int:
        return iv_has(iv, t)
    if t.op == 'lin':
        items, const = t.args
        if len(items) == 1:
            a, c = items[0]
            if c == 1:
                return isin(a, iv_shift(iv, -const))
            if c == -1:
                return isin(a, iv_neg(iv_shift(iv, -const)))
            out = []
            for x, y in iv_shift(iv, -const):
                # c*a in [x, y]
                if c > 0:
                    out.append((-(-x // c) if x > -INF else x,
                                y // c if y < INF else y))
                else:
                    k = -c
                    out.append((-(y // k) if y < INF else -INF,
                                -(-(-x // k)) if x > -INF else INF))
            if c < 0:
                # -k*a in [x,y]  <=>  a in [ceil(-y/k), floor(-x/k)]
                k = -c
                out = [((-((y) // k)) if y < INF else -INF,
                        ((-x) // k) if x > -INF else INF)
                       for x, y in iv_shift(iv, -const)]
            return isin(a, iv_norm(out))
    elif t.op == 'ite':
        c, a, b = t.args
        return bor(band(c, isin(a, iv)), band(bnot(c), isin(b, iv)))
    if t.op == 'esc':
        return isin(t.args[0], iv)
    base = t.dom if t.dom is not None else ((t.lo, t.hi),)
    iv = iv_and(iv, base)
    if not iv:
        return False
    if iv == base:
        return True
    r, new = _mk(B, 'in', (t, iv))
    if new:
        r.vars = t.vars
    return r


def eq(a, b):
    if type(b) is int:
        return isin(a, ((b, b),))
    if type(a) is int:
        return isin(b, ((a, a),))
    if a is b:
        return True
    d = sub(a, b)
    return _eq0(d)


def _single(d):
    return (type(d) is int or d.op != 'lin' or len(d.args[0]) == 1)


def _sign_norm(d):
    # first coefficient positive
    if d.args[0][0][1] < 0:
        return neg(d)
    return d


def _eq0(d):
    if _single(d):
        return isin(d, ((0, 0),))
    if d.lo > 0 or d.hi < 0:
        return False
    for a, c in d.args[0]:
        if a.op == 'ite' and len(d.vars) <= 2:
            rest = sub(d, mulc(a, c))
            c0, x, y = a.args
            return bor(band(c0, _eq0(add(rest, mulc(x, c)))),
                       band(bnot(c0), _eq0(add(rest, mulc(y, c)))))
    d = _sign_norm(d)
    r, new = _mk(B, 'eq0', (d,))
    if new:
        r.vars = d.vars
    return r


def _ne0(d):
    if _single(d):
        return isin(d, iv_not(((0, 0),)))
    if d.lo > 0 or d.hi < 0:
        return True
    d = _sign_norm(d)
    r, new = _mk(B, 'ne0', (d,))
    if new:
        r.vars = d.vars
    return r


def le(a, b):
    d = sub(a, b)
    if type(d) is int:
        return d <= 0
    return _le0(d)


def _le0(d):
    if _single(d):
        return isin(d, ((-INF, 0),))
    if d.hi <= 0:
        return True
    if d.lo > 0:
        return False
    r, new = _mk(B, 'le0', (d,))
    if new:
        r.vars = d.vars
    return r


def lt(a, b):
    return le(add(a, 1), b)


def bnot(b):
    if b is True:
        return False
    if b is False:
        return True
    if b._neg is not None:
        return b._neg
    op = b.op
    if op == 'in':
        t, iv = b.args
        base = t.dom if t.dom is not None else ((t.lo, t.hi),)
        iv2 = iv_and(iv_not(iv), base)
        r, new = _mk(B, 'in', (t, iv2))
        if new:
            r.vars = t.vars
    elif op == 'eq0':
        r = _ne0(b.args[0])
    elif op == 'ne0':
        r = _eq0(b.args[0])
    elif op == 'le0':
        # not d<=0  <=> d>=1 <=> 1-d<=0
        r = _le0(add(neg(b.args[0]), 1))
    elif op == 'and':
        r = borl([bnot(x) for x in b.args])
    elif op == 'or':
        r = bandl([bnot(x) for x in b.args])
    else:
        raise AssertionError(op)
    if not isinstance(r, bool):
        r._neg = b
    b._neg = r
    return r


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True or a is b:
        return a
    return bandl([a, b])


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False or a is b:
        return a
    return borl([a, b])


def bandl(parts):
    flat = {}
    ins = {}

    def push(p):
        if p is True:
            return True
        if p is False:
            return False
        if p.op == 'and':
            for q in p.args:
                if not push(q):
                    return False
            return True
        if p.op == 'in':
            t, iv = p.args
            if t in ins:
                iv = iv_and(ins[t], iv)
                if not iv:
                    return False
            ins[t] = iv
            return True
        flat[p.id] = p
        return True

    for p in parts:
        if not push(p):
            return False
    for t, iv in ins.items():
        p = isin(t, iv)
        if p is False:
            return False
        if p is not True:
            flat[p.id] = p
    if not flat:
        return True
    if len(flat) == 1:
        return next(iter(flat.values()))
    for p in flat.values():
        n = p._neg
        if n is not None and n is not True and n is not False \
                and n.id in flat:
            return False
    args = tuple(flat[k] for k in sorted(flat))
    r, new = _mk(B, 'and', args)
    if new:
        vs = EMPTY
        for p in args:
            vs = vs | p.vars
        r.vars = vs
    return r


def borl(parts):
    flat = {}
    ins = {}

    def push(p):
        if p is False:
            return True
        if p is True:
            return False
        if p.op == 'or':
            for q in p.args:
                if not push(q):
                    return False
            return True
        if p.op == 'in':
            t, iv = p.args
            if t in ins:
                iv = iv_or(ins[t], iv)
            ins[t] = iv
            return True
        flat[p.id] = p
        return True

    for p in parts:
        if not push(p):
            return True
    for t, iv in ins.items():
        p = isin(t, iv)
        if p is True:
            return True
        if p is not False:
            flat[p.id] = p
    if not flat:
        return False
    if len(flat) == 1:
        return next(iter(flat.values()))
    for p in flat.values():
        n = p._neg
        if n is not None and n is not True and n is not False \
                and n.id in flat:
            return True
    args = tuple(flat[k] for k in sorted(flat))
    r, new = _mk(B, 'or', args)
    if new:
        vs = EMPTY
        for p in args:
            vs = vs | p.vars
        r.vars = vs
    return r

# --------------------------------------------------------------- evaluation


def ev(t, m):
    """Evaluate int term under model m: var -> int."""
    if type(t) is int:
        return t
    op = t.op
    if op == 'var':
        return m[t]
    if op == 'lin':
        s = t.args[1]
        for a, c in t.args[0]:
            s += c * ev(a, m)
        return s
    if op == 'ite':
        c, a, b = t.args
        return ev(a, m) if evb(c, m) else ev(b, m)
    if op == 'div':
        return ev(t.args[0], m) // t.args[1]
    if op == 'mod':
        return ev(t.args[0], m) % t.args[1]
    if op == 'esc':
        return ev(t.args[0], m)
    raise AssertionError(op)


def evb(b, m):
    if b is True or b is False:
        return b
    op = b.op
    if op == 'in':
        return iv_has(b.args[1], ev(b.args[0], m))
    if op == 'eq0':
        return ev(b.args[0], m) == 0
    if op == 'ne0':
        return ev(b.args[0], m) != 0
    if op == 'le0':
        return ev(b.args[0], m) <= 0
    if op == 'and':
        for p in b.args:
            if not evb(p, m):
                return False
        return True
    if op == 'or':
        for p in b.args:
            if evb(p, m):
                return True
        return False
    raise AssertionError(op)

# ----------------------------------------------------------------------- z3

_zvars = {}


def zreset():
    _zvars.clear()


def to_z(t):
    if type(t) is int:
        return z3.IntVal(t)
    if t._z is not None:
        return t._z
    op = t.op
    if op == 'var':
        r = z3.Int(t.args[0])
    elif op == 'lin':
        items, const = t.args
        parts = []
        for a, c in items:
            za = to_z(a)
            parts.append(za if c == 1 else za * c)
        if const:
            parts.append(z3.IntVal(const))
        r = z3.Sum(parts) if len(parts) > 1 else parts[0]
    elif op == 'ite':
        r = z3.If(to_zb(t.args[0]), to_z(t.args[1]), to_z(t.args[2]))
    elif op == 'div':
        r = to_z(t.args[0]) / t.args[1]
    elif op == 'mod':
        r = to_z(t.args[0]) % t.args[1]
    elif op == 'esc':
        r = to_z(t.args[0])
    else:
        raise AssertionError(op)
    t._z = r
    return r


def z_in(zt, iv):
    parts = []
    for lo, hi in iv:
        if lo == hi:
            parts.append(zt == lo)
        elif lo <= -INF and hi >= INF:
            return z3.BoolVal(True)
        elif lo <= -INF:
            parts.append(zt <= hi)
        elif hi >= INF:
            parts.append(zt >= lo)
        else:
            parts.append(z3.And(zt >= lo, zt <= hi))
    if not parts:
        return z3.BoolVal(False)
    if len(parts) == 1:
        return parts[0]
    return z3.Or(parts)


def to_zb(b):
    if b is True or b is False:
        return z3.BoolVal(b)
    if b._z is not None:
        return b._z
    op = b.op
    if op == 'in':
        r = z_in(to_z(b.args[0]), b.args[1])
    elif op == 'eq0':
        r = to_z(b.args[0]) == 0
    elif op == 'ne0':
        r = to_z(b.args[0]) != 0
    elif op == 'le0':
        r = to_z(b.args[0]) <= 0
    elif op == 'and':
        r = z3.And([to_zb(x) for x in b.args])
    elif op == 'or':
        r = z3.Or([to_zb(x) for x in b.args])
    else:
        raise AssertionError(op)
    b._z = r
    return r


def t_repr(t):
    if type(t) is int:
        return str(t)
    if t.op == 'var':
        return t.args[0]
    if t.op == 'lin':
        return '(' + ' + '.join('%s*%s' % (c, t_repr(a)) if c != 1
                                else t_repr(a)
                                for a, c in t.args[0]) + \
            (' + %d' % t.args[1] if t.args[1] else '') + ')'
    return '%s(%s)' % (t.op, ', '.join(
        b_repr(a) if isinstance(a, (bool, B)) else t_repr(a)
        if isinstance(a, (int, T)) else str(a) for a in t.args))


def b_repr(b):
    if b is True or b is False:
        return str(b)
    if b.op == 'in':
        return '%s in %s' % (t_repr(b.args[0]), b.args[1])
    if b.op in ('eq0', 'ne0', 'le0'):
        return '%s(%s)' % (b.op, t_repr(b.args[0]))
    return '%s(%s)' % (b.op, ', '.join(map(b_repr, b.args)))
