"""Symbolic values: SymBool, SymInt, SymStr, SymBytes, LazyStr."""
import sys
from . import terms as tm
from .terms import T, B, iv_norm, iv_from, iv_and, iv_not
from . import engine as en


def decide(b):
    if b is True or b is False:
        return b
    return en.PATH.decide(b)


class Unsupported(en.SxControl):
    pass

# ----------------------------------------------------------------- char sets


_tables = {}


def char_table(name):
    """Interval set of code points c for which chr(c).<name>() is true."""
    r = _tables.get(name)
    if r is None:
        out = []
        start = None
        f = getattr(str, name)
        for i in range(sys.maxunicode + 1):
            if f(chr(i)):
                if start is None:
                    start = i
            elif start is not None:
                out.append((start, i - 1))
                start = None
        if start is not None:
            out.append((start, sys.maxunicode))
        r = _tables[name] = tuple(out)
    return r


def case_table(name):
    """[(iv, delta)] for single-char case mappings, plus the set of code
    points with other (multi-char) mappings."""
    r = _tables.get('case_' + name)
    if r is None:
        f = getattr(str, name)
        by = {}
        multi = []
        for i in range(sys.maxunicode + 1):
            x = f(chr(i))
            if len(x) != 1:
                multi.append(i)
            elif ord(x) != i:
                by.setdefault(ord(x) - i, []).append(i)
        r = ([(iv_from(v), d) for d, v in sorted(by.items())],
             iv_from(multi))
        _tables['case_' + name] = r
    return r


def precompute_tables():
    for n in ('isdigit', 'isspace', 'isalpha', 'isalnum', 'isdecimal',
              'isupper', 'islower', 'isprintable'):
        char_table(n)
    case_table('lower')
    case_table('upper')


ASCII = ((0, 127),)

# --------------------------------------------------------------------- bool


class SymBool(object):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return en.PATH.decide(self.b)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return int(bool(self))

    def __and__(self, o):
        b = as_b(o)
        if b is None:
            return mkint(b2i(self.b)) & o
        return mkbool(tm.band(self.b, b))

    __rand__ = __and__

    def __or__(self, o):
        b = as_b(o)
        if b is None:
            return mkint(b2i(self.b)) | o
        return mkbool(tm.bor(self.b, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = as_b(o)
        if b is None:
            return mkint(b2i(self.b)) ^ o
        return mkbool(b_iff(self.b, tm.bnot(b)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(b_iff(self.b, as_b(o)))
        if isinstance(o, int):
            return mkint(b2i(self.b)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __add__(self, o):
        return mkint(b2i(self.b)) + o

    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __reduce__(self):
        return (bool, (bool(self),))


def _as_number(name):
    def op(self, *a):
        return getattr(mkint(b2i(self.b)), name)(*a)
    op.__name__ = name
    return op


for _n in ('lt', 'le', 'gt', 'ge', 'sub', 'rsub', 'mul', 'rmul', 'lshift',
           'rlshift', 'rshift', 'rrshift', 'floordiv', 'mod', 'neg', 'pos',
           'abs', 'invert'):
    setattr(SymBool, '__%s__' % _n, _as_number('__%s__' % _n))


def b2i(b):
    return tm.ite(b, 1, 0)


def b_iff(a, b):
    return tm.bor(tm.band(a, b), tm.band(tm.bnot(a), tm.bnot(b)))


def mkbool(b):
    if b is True or b is False:
        return b
    return SymBool(b)


def as_b(x):
    """bool-ish -> B term / bool; None if not a bool."""
    if x is True or x is False:
        return x
    if type(x) is SymBool:
        return x.b
    return None


def truth(x):
    """Truth value of any value as a B term, without forking if possible."""
    if x is True or x is False:
        return x
    t = type(x)
    if t is SymBool:
        return x.b
    if t is SymInt:
        return tm.bnot(tm.eq(x.t, 0))
    return bool(x)


def sx_not(x):
    return mkbool(tm.bnot(truth(x)))

# ---------------------------------------------------------------------- int


def mkint(t):
    if type(t) is int:
        return t
    return SymInt(t)


def as_t(x):
    """int-ish -> term or None"""
    ty = type(x)
    if ty is int:
        return x
    if ty is SymInt:
        return x.t
    if ty is bool:
        return int(x)
    if ty is SymBool:
        return b2i(x.b)
    return None


class SymInt(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: int)

    def __bool__(self):
        return decide(tm.bnot(tm.eq(self.t, 0)))

    def __index__(self):
        return en.PATH.value(self.t)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def _bin(f):
        def op(self, o):
            o = as_t(o)
            if o is None:
                return NotImplemented
            return f(self.t, o)
        return op

    def _mul(a, b):
        if type(a) is int:
            return mkint(tm.mulc(b, a))
        if type(b) is not int:
            b = en.PATH.value(b)
        return mkint(tm.mulc(a, b))

    __add__ = __radd__ = _bin(lambda a, b: mkint(tm.add(a, b)))
    __sub__ = _bin(lambda a, b: mkint(tm.sub(a, b)))
    __rsub__ = _bin(lambda a, b: mkint(tm.sub(b, a)))
    __mul__ = __rmul__ = _bin(_mul)
    __eq__ = _bin(lambda a, b: mkbool(tm.eq(a, b)))
    __ne__ = _bin(lambda a, b: mkbool(tm.bnot(tm.eq(a, b))))
    __lt__ = _bin(lambda a, b: mkbool(tm.lt(a, b)))
    __le__ = _bin(lambda a, b: mkbool(tm.le(a, b)))
    __gt__ = _bin(lambda a, b: mkbool(tm.lt(b, a)))
    __ge__ = _bin(lambda a, b: mkbool(tm.le(b, a)))

    def _div(a, b):
        if type(b) is not int:
            b = en.PATH.value(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b < 0:
            return mkint(tm.divc(tm.neg(a), -b) if type(a) is not int
                         else a // b)
        return mkint(tm.divc(a, b))

    def _mod(a, b):
        if type(b) is not int:
            b = en.PATH.value(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b < 0:
            return mkint(tm.neg(tm.modc(tm.neg(a), -b)))
        return mkint(tm.modc(a, b))

    def _and(a, b):
        if type(a) is int:
            a, b = b, a
        if type(b) is not int:
            b = en.PATH.value(b)
        if type(a) is int:
            return a & b
        if b == 0:
            return 0
        if b < 0:
            # clear some low/mid bits: a & b == a - (a & ~b) for ~b >= 0
            return mkint(tm.sub(a, as_t(SymInt._and(a, ~b))))
        # contiguous run of ones?
        low = (b & -b).bit_length() - 1
        ones = b >> low
        if ones & (ones + 1) == 0:
            w = ones.bit_length()
            q = tm.divc(a, 1 << low)
            return mkint(tm.mulc(tm.modc(q, 1 << w), 1 << low))
        r = 0
        for i in range(b.bit_length()):
            if b >> i & 1:
                r = tm.add(r, tm.mulc(tm.modc(tm.divc(a, 1 << i), 2), 1 << i))
        return mkint(r)

    def _or(a, b):
        if type(a) is int:
            a, b = b, a
        if type(a) is int:
            return a | b
        # a | b == a + b - (a & b)
        la, ha = tm.lo_of(a), tm.hi_of(a)
        lb, hb = tm.lo_of(b), tm.hi_of(b)
        for x, lo, hi, y, lo2, hi2 in ((a, la, ha, b, lb, hb),
                                       (b, lb, hb, a, la, ha)):
            # y < 2**k and x multiple of 2**k (structurally)
            if lo2 >= 0 and lo >= 0:
                k = hi2.bit_length()
                if tm.modc(x, 1 << k) == 0 or x_mult(x, 1 << k):
                    return mkint(tm.add(x, y))
        if type(b) is not int:
            b = en.PATH.value(b)
        return mkint(tm.sub(tm.add(a, b), as_t(SymInt._and(a, b))))

    def _shl(a, b):
        if type(b) is not int:
            b = en.PATH.value(b)
        return mkint(tm.mulc(a, 1 << b)) if type(a) is not int else a << b

    def _shr(a, b):
        if type(b) is not int:
            b = en.PATH.value(b)
        return mkint(tm.divc(a, 1 << b))

    def _pow(a, b):
        a = en.PATH.value(a)
        b = en.PATH.value(b)
        return a ** b

    __floordiv__ = _bin(_div)
    __rfloordiv__ = _bin(lambda a, b: SymInt._div(b, a))
    __mod__ = _bin(_mod)
    __rmod__ = _bin(lambda a, b: SymInt._mod(b, a))
    __and__ = __rand__ = _bin(_and)
    __or__ = __ror__ = _bin(_or)
    __xor__ = __rxor__ = _bin(
        lambda a, b: mkint(tm.sub(as_t(SymInt._or(a, b)),
                                  as_t(SymInt._and(a, b)))))
    __lshift__ = _bin(_shl)
    __rlshift__ = _bin(lambda a, b: SymInt._shl(b, a))
    __rshift__ = _bin(_shr)
    __rrshift__ = _bin(lambda a, b: SymInt._shr(b, a))
    __pow__ = _bin(_pow)
    __rpow__ = _bin(lambda a, b: SymInt._pow(b, a))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return int(self) / o

    def __neg__(self):
        return mkint(tm.neg(self.t))

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(tm.sub(-1, self.t))

    def __abs__(self):
        return mkint(tm.ite(tm.lt(self.t, 0), tm.neg(self.t), self.t))

    def bit_length(self):
        return int(self).bit_length()

    def __repr__(self):
        return '<SymInt %r>' % (self.t,)

    def __format__(self, spec):
        return format(int(self), spec)

    def __reduce__(self):
        return (int, (int(self),))

    @property
    def real(self):
        return self

    numerator = real


def x_mult(x, k):
    """Is term x structurally a multiple of k?"""
    if type(x) is int:
        return x % k == 0
    if x.op == 'lin':
        return x.args[1] % k == 0 and all(c % k == 0 for _, c in x.args[0])
    return False

# ---------------------------------------------------------------------- str


def mkstr(cs):
    for c in cs:
        if type(c) is not int:
            return SymStr(tuple(cs))
    return ''.join(map(chr, cs))


def mkbytes(cs):
    for c in cs:
        if type(c) is not int:
            return SymBytes(tuple(cs))
    return bytes(cs)


def seq_eq(a, b):
    """B term: equality of two tuples of char terms."""
    if len(a) != len(b):
        return False
    parts = []
    for x, y in zip(a, b):
        e = tm.eq(x, y)
        if e is False:
            return False
        if e is not True:
            parts.append(e)
    if not parts:
        return True
    return tm.bandl(parts)


def seq_lt(a, b, orequal):
    """B term: lexicographic a < b (or a <= b)."""
    n = min(len(a), len(b))
    if len(a) != len(b):
        r = len(a) < len(b)
    else:
        r = orequal
    for i in range(n - 1, -1, -1):
        r = tm.bor(tm.lt(a[i], b[i]), tm.band(tm.eq(a[i], b[i]), r))
    return r


WS_TAB = None


class SymSeq(object):
    __slots__ = ('_c',)

    def __init__(self, c):
        self._c = c

    # subclass hooks: _mk(cs), _chars(other) -> tuple or None, _item(c)
    def __len__(self):
        return len(self._c)

    def __bool__(self):
        return bool(self._c)

    def __iter__(self):
        item = self._item
        for c in self._c:
            yield item(c)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice_conc(k, len(self._c))
            return self._mk(self._c[k])
        k = index_conc(k, len(self._c))
        return self._item(self._c[k])

    def __add__(self, o):
        oc = self._chars(o)
        if oc is None:
            if type(o) is LazyStr:
                return LazyStr([self] + o.parts)
            raise TypeError('can only concatenate %s (not "%s")' % (
                self._tname, type(o).__name__))
        return self._mk(self._c + oc)

    def __radd__(self, o):
        oc = self._chars(o)
        if oc is None:
            if type(o) is LazyStr:
                return LazyStr(o.parts + [self])
            if not isinstance(o, (str, bytes)):
                return NotImplemented     # list += str
            raise TypeError('can only concatenate %s (not "%s")' % (
                self._tname, type(o).__name__))
        return self._mk(oc + self._c)

    def __mul__(self, n):
        return self._mk(self._c * max(0, n.__index__()))

    __rmul__ = __mul__

    def __eq__(self, o):
        oc = self._chars(o)
        if oc is None:
            if type(o) is LazyStr:
                return o == self
            return NotImplemented
        return mkbool(seq_eq(self._c, oc))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _cmp(rev, oe):
        def f(self, o):
            oc = self._chars(o)
            if oc is None:
                return NotImplemented
            if rev:
                return mkbool(seq_lt(oc, self._c, oe))
            return mkbool(seq_lt(self._c, oc, oe))
        return f

    __lt__ = _cmp(False, False)
    __le__ = _cmp(False, True)
    __gt__ = _cmp(True, False)
    __ge__ = _cmp(True, True)

    def __hash__(self):
        return hash(self.conc())

    def conc(self):
        """Fork over the values (exact)."""
        v = en.PATH.value
        return self._native([v(c) for c in self._c])

    def __repr__(self):
        return '<%s %r>' % (self._tname, self._c)

    def __reduce__(self):
        c = self.conc()
        return (type(c), (c,))

    def _need(self, o):
        oc = self._chars(o)
        if oc is None:
            if type(o) is LazyStr:
                return o.force_chars()
            raise TypeError('expected %s, not %s' % (
                self._tname, type(o).__name__))
        return oc

    def b_contains(self, oc):
        n = len(oc)
        if n == 0:
            return True
        c = self._c
        return tm.borl([seq_eq(c[i:i + n], oc)
                        for i in range(len(c) - n + 1)])

    def __contains__(self, o):
        return decide(self.b_contains(self._need(o)))

    def _range(self, start, end):
        n = len(self._c)
        s, e, _ = slice_conc(slice(start, end), n).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        oc = self._need(sub)
        s, e = self._range(start, end)
        k = len(oc)
        if start is not None and int(start) > len(self._c):
            return -1
        for i in range(s, e - k + 1):
            if decide(seq_eq(self._c[i:i + k], oc)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        oc = self._need(sub)
        s, e = self._range(start, end)
        k = len(oc)
        for i in range(e - k, s - 1, -1):
            if decide(seq_eq(self._c[i:i + k], oc)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        oc = self._need(sub)
        s, e = self._range(start, end)
        k = len(oc)
        if k == 0:
            return max(0, e - s + 1)
        if k == 1:
            r = 0
            for i in range(s, e):
                r = tm.add(r, b2i(tm.eq(self._c[i], oc[0])))
            return mkint(r)
        i, r = s, 0
        while i <= e - k:
            if decide(seq_eq(self._c[i:i + k], oc)):
                r += 1
                i += k
            else:
                i += 1
        return r

    def startswith(self, pre, start=None, end=None):
        s, e = self._range(start, end)
        if start is not None and int(start) > len(self._c):
            return False
        if isinstance(pre, tuple):
            return mkbool(tm.borl([as_b(self.startswith(p, start, end))
                                   for p in pre]))
        oc = self._need(pre)
        if len(oc) > e - s:
            return False
        return mkbool(seq_eq(self._c[s:s + len(oc)], oc))

    def endswith(self, suf, start=None, end=None):
        s, e = self._range(start, end)
        if isinstance(suf, tuple):
            return mkbool(tm.borl([as_b(self.endswith(p, start, end))
                                   for p in suf]))
        oc = self._need(suf)
        if len(oc) > e - s:
            return False
        return mkbool(seq_eq(self._c[e - len(oc):e], oc))

    def removeprefix(self, p):
        oc = self._need(p)
        if self.startswith(p):
            return self._mk(self._c[len(oc):])
        return self

    def removesuffix(self, p):
        oc = self._need(p)
        if oc and self.endswith(p):
            return self._mk(self._c[:-len(oc)])
        return self

    def split(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if sep is None:
            return self._split_ws(maxsplit)
        oc = self._need(sep)
        if not oc:
            raise ValueError('empty separator')
        out = []
        i = last = 0
        k = len(oc)
        n = len(self._c)
        while i <= n - k:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if decide(seq_eq(self._c[i:i + k], oc)):
                out.append(self._mk(self._c[last:i]))
                i += k
                last = i
            else:
                i += 1
        out.append(self._mk(self._c[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = maxsplit.__index__()
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(-1)
            raise Unsupported('rsplit(None, n)')
        oc = self._need(sep)
        k = len(oc)
        if not k:
            raise ValueError('empty separator')
        out = []
        end = len(self._c)
        i = end - k
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if decide(seq_eq(self._c[i:i + k], oc)):
                out.append(self._mk(self._c[i + k:end]))
                end = i
                i -= k
            else:
                i -= 1
        out.append(self._mk(self._c[:end]))
        out.reverse()
        return out

    def _split_ws(self, maxsplit):
        ws = self._ws()
        out = []
        n = len(self._c)
        i = 0
        while True:
            while i < n and decide(tm.isin(self._c[i], ws)):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                e = n
                while e > i and decide(tm.isin(self._c[e - 1], ws)):
                    e -= 1
                out.append(self._mk(self._c[i:n]))
                break
            j = i
            while j < n and not decide(tm.isin(self._c[j], ws)):
                j += 1
            out.append(self._mk(self._c[i:j]))
            i = j
        return out

    def partition(self, sep):
        oc = self._need(sep)
        i = self.find(sep)
        if i < 0:
            e = self._mk(())
            return (self, e, e)
        return (self._mk(self._c[:i]), self._mk(oc),
                self._mk(self._c[i + len(oc):]))

    def rpartition(self, sep):
        oc = self._need(sep)
        i = self.rfind(sep)
        if i < 0:
            e = self._mk(())
            return (e, e, self)
        return (self._mk(self._c[:i]), self._mk(oc),
                self._mk(self._c[i + len(oc):]))

    def replace(self, old, new, count=-1):
        oc, nc = self._need(old), self._need(new)
        count = count.__index__()
        out = []
        k = len(oc)
        i, n = 0, len(self._c)
        if k == 0:
            for j, c in enumerate(self._c):
                if count < 0 or j < count:
                    out.extend(nc)
                out.append(c)
            if count < 0 or n < count:
                out.extend(nc)
            return self._mk(out)
        if k == 1 and len(nc) == 1 and count < 0:
            return self._mk([tm.ite(tm.eq(c, oc[0]), nc[0], c)
                             for c in self._c])
        done = 0
        while i < n:
            if (count < 0 or done < count) and i <= n - k and \
                    decide(seq_eq(self._c[i:i + k], oc)):
                out.extend(nc)
                i += k
                done += 1
            else:
                out.append(self._c[i])
                i += 1
        return self._mk(out)

    def _stripset(self, chars):
        if chars is None:
            return self._ws()
        oc = self._need(chars)
        return oc

    def _instrip(self, c, st):
        if st and type(st[0]) is tuple:
            return tm.isin(c, st)
        return tm.borl([tm.eq(c, x) for x in st])

    def lstrip(self, chars=None):
        st = self._stripset(chars)
        i = 0
        while i < len(self._c) and st and \
                decide(self._instrip(self._c[i], st)):
            i += 1
        return self._mk(self._c[i:])

    def rstrip(self, chars=None):
        st = self._stripset(chars)
        i = len(self._c)
        while i > 0 and st and decide(self._instrip(self._c[i - 1], st)):
            i -= 1
        return self._mk(self._c[:i])

    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars)

    def join(self, parts):
        return join(self, parts)

    def splitlines(self, keepends=False):
        nl = self._nl()
        out = []
        i = last = 0
        n = len(self._c)
        while i < n:
            c = self._c[i]
            if decide(tm.isin(c, nl)):
                e = i + 1
                if decide(tm.eq(c, 13)) and e < n and \
                        decide(tm.eq(self._c[e], 10)):
                    e += 1
                out.append(self._mk(self._c[last:e if keepends else i]))
                i = last = e
            else:
                i += 1
        if last < n:
            out.append(self._mk(self._c[last:]))
        return out

    def _pad(self, width, fill, left, right):
        width = width.__index__()
        f = self._need(fill)
        k = width - len(self._c)
        if k <= 0:
            return self
        if left and right:      # as CPython does it
            n = k // 2 + (k & width & 1)
            return self._mk(f * n + self._c + f * (k - n))
        return self._mk(f * k + self._c if left else self._c + f * k)

    def ljust(self, width, fill=None):
        return self._pad(width, fill or self._space, False, True)

    def rjust(self, width, fill=None):
        return self._pad(width, fill or self._space, True, False)

    def center(self, width, fill=None):
        return self._pad(width, fill or self._space, True, True)

    def zfill(self, w):
        k = w - len(self._c)
        if k <= 0:
            return self
        if self._c and decide(tm.isin(self._c[0], ((43, 43), (45, 45)))):
            return self._mk(self._c[:1] + (48,) * k + self._c[1:])
        return self._mk((48,) * k + self._c)

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for c in self._c:
            if decide(tm.eq(c, 9)):
                if tabsize > 0:
                    k = tabsize - col % tabsize
                    out.extend((32,) * k)
                    col += k
            else:
                out.append(c)
                col = 0 if decide(tm.isin(c, ((10, 10), (13, 13)))) \
                    else col + 1
        return self._mk(out)

    # ---- predicates
    def _all(self, iv):
        if not self._c:
            return False
        return mkbool(tm.bandl([tm.isin(c, iv) for c in self._c]))

    def _mapcase(self, lo, hi, delta):
        return self._mk([tm.ite(tm.isin(c, ((lo, hi),)), tm.add(c, delta), c)
                         for c in self._c])


def index_conc(k, n):
    if type(k) is SymInt:
        t = k.t
        if decide(tm.lt(t, -n)) or decide(tm.le(n, t)):
            raise IndexError('string index out of range')
        return en.PATH.value(t)
    if not isinstance(k, int):
        k = k.__index__()
    return k


def _clamp(x, n):
    if x is None or type(x) is int:
        return x
    if type(x) is SymInt:
        t = x.t
        if decide(tm.le(t, -n)):
            return -n
        if decide(tm.le(n, t)):
            return n
        return en.PATH.value(t)
    return x.__index__()


def slice_conc(s, n):
    st = s.step
    if st is not None and type(st) is not int:
        st = st.__index__()
    if st is not None and st < 0:
        return slice(None if s.start is None else s.start.__index__(),
                     None if s.stop is None else s.stop.__index__(), st)
    if type(s.start) in (int, type(None)) and \
            type(s.stop) in (int, type(None)):
        return s
    # -n clamps to 0 when n is 0
    return slice(_clamp(s.start, n), _clamp(s.stop, n), st)


class SymStr(SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: str)
    _tname = 'str'
    _space = ' '

    @staticmethod
    def _mk(cs):
        return mkstr(cs)

    @staticmethod
    def _item(c):
        return chr(c) if type(c) is int else SymStr((c,))

    @staticmethod
    def _chars(o):
        t = type(o)
        if t is SymStr:
            return o._c
        if t is str:
            return tuple(map(ord, o))
        if isinstance(o, str) and t is not LazyStr:
            return tuple(map(ord, str.__str__(o)))
        return None

    @staticmethod
    def _native(cs):
        return ''.join(map(chr, cs))

    @staticmethod
    def _ws():
        return char_table('isspace')

    @staticmethod
    def _nl():
        return iv_from([10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85,
                        0x2028, 0x2029])

    def __str__(self):
        return self.conc()

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __mod__(self, args):
        from .models import percent_format
        return percent_format(self, args)

    def isdigit(self):
        return self._all(char_table('isdigit'))

    def isdecimal(self):
        return self._all(char_table('isdecimal'))

    def isnumeric(self):
        return self._all(char_table('isnumeric'))

    def isalpha(self):
        return self._all(char_table('isalpha'))

    def isalnum(self):
        return self._all(char_table('isalnum'))

    def isspace(self):
        return self._all(char_table('isspace'))

    def isprintable(self):
        return mkbool(tm.bandl([tm.isin(c, char_table('isprintable'))
                                for c in self._c]))

    def isascii(self):
        return mkbool(tm.bandl([tm.isin(c, ASCII) for c in self._c]))

    def _cased(self, yes, no):
        if not self._c:
            return False
        y = char_table(yes)
        n = iv_norm(char_table(no))
        return mkbool(tm.band(
            tm.bandl([tm.bnot(tm.isin(c, n)) for c in self._c]),
            tm.borl([tm.isin(c, y) for c in self._c])))

    def isupper(self):
        return self._cased('isupper', 'islower')

    def islower(self):
        return self._cased('islower', 'isupper')

    def isidentifier(self):
        return self.conc().isidentifier()

    def _case(self, name, lo, hi, delta):
        out = []
        for c in self._c:
            if type(c) is int:
                out.extend(map(ord, getattr(chr(c), name)()))
                continue
            r = tm.ite(tm.isin(c, ((lo, hi),)), tm.add(c, delta), c)
            if c.hi > 127 and tm.isin(c, ASCII) is not True:
                single, multi = case_table(name)
                hi_part = tm.isin(c, ((128, 0x10ffff),))
                if en.PATH.quick(hi_part) is not False and \
                        decide(hi_part):
                    if decide(tm.isin(c, multi)):
                        v = en.PATH.value(c)
                        out.extend(map(ord, getattr(chr(v), name)()))
                        continue
                    changed = iv_norm([p for iv, _ in single for p in iv])
                    if decide(tm.isin(c, changed)):
                        for iv, d in single:
                            if decide(tm.isin(c, iv)):
                                r = tm.add(c, d)
                                break
                    else:
                        r = c
            out.append(r)
        return self._mk(out)

    def lower(self):
        return self._case('lower', 65, 90, 32)

    def upper(self):
        return self._case('upper', 97, 122, -32)

    def casefold(self):
        return self.lower() if self.isascii() else self.conc().casefold()

    def swapcase(self):
        if not self.isascii():
            return self.conc().swapcase()
        return self._mk([
            tm.ite(tm.isin(c, ((65, 90),)), tm.add(c, 32),
                   tm.ite(tm.isin(c, ((97, 122),)), tm.add(c, -32), c))
            for c in self._c])

    def istitle(self):
        return self.conc().istitle()

    def title(self):
        if not self.isascii():
            return self.conc().title()
        out = []
        start = True
        for c in self._c:
            out.append(tm.ite(tm.isin(c, ((97, 122),)), tm.add(c, -32), c)
                       if start else
                       tm.ite(tm.isin(c, ((65, 90),)), tm.add(c, 32), c))
            start = not decide(tm.isin(c, ((65, 90), (97, 122))))
        return self._mk(out)

    def capitalize(self):
        if not self._c:
            return ''
        return self._mk(self._chars(self._mk(self._c[:1]).upper()) +
                        self._chars(self._mk(self._c[1:]).lower()))

    def translate(self, table):
        out = []
        known = isinstance(table, dict) and \
            not hasattr(type(table), '__missing__') and \
            all(type(k) is int for k in table)
        for c in self._c:
            if type(c) is int:
                out.extend(map(ord, chr(c).translate(table)))
            elif known:
                for k in table:
                    if decide(tm.eq(c, k)):
                        v = table[k]
                        if v is not None:
                            out.extend((v,) if as_t(v) is not None
                                       else self._need(v))
                        break
                else:
                    out.append(c)
            else:
                out.extend(map(ord, chr(en.PATH.value(c)).translate(table)))
        return self._mk(out)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self._c, encoding, errors)

    def format(self, *a, **k):
        from .models import str_format
        return str_format(self, a, k)


SYMBA = None        # models.SymByteArray


class SymBytes(SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: bytes)
    _tname = 'bytes'
    _space = b' '

    @staticmethod
    def _mk(cs):
        return mkbytes(cs)

    @staticmethod
    def _item(c):
        return c if type(c) is int else SymInt(c)

    @staticmethod
    def _chars(o):
        t = type(o)
        if t is SymBytes:
            return o._c
        if t is bytes or t is bytearray:
            return tuple(o)
        if t is SYMBA:
            return tuple(o._l)
        return None

    def _need(self, o):
        k = as_t(o)         # find(98), count(98)
        if k is not None:
            return (k,)
        return SymSeq._need(self, o)

    @staticmethod
    def _native(cs):
        return bytes(cs)

    def __contains__(self, o):
        t = as_t(o)
        if t is not None:
            return decide(tm.borl([tm.eq(c, t) for c in self._c]))
        return decide(self.b_contains(self._need(o)))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._mk(self._c[slice_conc(k, len(self._c))])
        return self._item(self._c[index_conc(k, len(self._c))])

    @staticmethod
    def _ws():
        return iv_from([9, 10, 11, 12, 13, 32])

    @staticmethod
    def _nl():
        return iv_from([10, 13])

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self._c, encoding, errors)

    def tobytes(self):      # of a memoryview
        return self

    def tolist(self):
        return list(self)

    def hex(self):
        return ''.join('%02x' % en.PATH.value(c) for c in self._c)

    def translate(self, table, delete=b''):
        out = []
        drop = iv_from(bytes(delete))
        for c in self._c:
            if drop and decide(tm.isin(c, drop)):
                continue
            if table is not None:
                c0 = c
                for k in range(256):
                    if table[k] != k:
                        c = tm.ite(tm.eq(c0, k), table[k], c)
            out.append(c)
        return self._mk(out)

    def isdigit(self):
        return self._all(((48, 57),))

    def isspace(self):
        return self._all(self._ws())

    def isalpha(self):
        return self._all(((65, 90), (97, 122)))

    def isalnum(self):
        return self._all(((48, 57), (65, 90), (97, 122)))

    def isascii(self):
        return mkbool(tm.bandl([tm.isin(c, ASCII) for c in self._c]))

    def lower(self):
        return self._mapcase(65, 90, 32)

    def upper(self):
        return self._mapcase(97, 122, -32)

    def hex(self):
        return self.conc().hex()


# ------------------------------------------------------------------ codecs

_ENC = {'utf-8': 'utf-8', 'utf8': 'utf-8', 'u8': 'utf-8',
        'latin1': 'latin-1', 'latin-1': 'latin-1', 'iso-8859-1': 'latin-1',
        'iso8859-1': 'latin-1', 'ascii': 'ascii', 'us-ascii': 'ascii',
        'cp1252': 'cp1252', 'windows-1252': 'cp1252', '1252': 'cp1252'}


def _encname(e):
    e = str(e).lower().replace('_', '-')
    if e not in _ENC:
        raise Unsupported('codec %s' % e)
    return _ENC[e]


def encode(cs, encoding, errors):
    e = _encname(encoding)
    out = []
    for i, c in enumerate(cs):
        if type(c) is int:
            try:
                out.extend(chr(c).encode(e, errors))
            except UnicodeEncodeError:
                raise UnicodeEncodeError(e, '?' * len(cs), i, i + 1,
                                         'not encodable')
            continue
        if e in ('latin-1', 'ascii'):
            top = 255 if e == 'latin-1' else 127
            if decide(tm.isin(c, ((0, top),))):
                out.append(c)
            elif errors == 'strict':
                raise UnicodeEncodeError(e, '?' * len(cs), i, i + 1,
                                         'ordinal not in range')
            elif errors == 'replace':
                out.append(63)
            elif errors == 'ignore':
                pass
            else:
                raise Unsupported('errors=%s' % errors)
            continue
        if e == 'cp1252':
            inv = {}
            for b in range(128, 160):
                try:
                    inv[ord(bytes([b]).decode('cp1252'))] = b
                except UnicodeDecodeError:
                    pass
            if decide(tm.isin(c, ((0, 127), (160, 255)))):
                out.append(c)
            elif decide(tm.isin(c, iv_from(inv))):
                out.append(inv[en.PATH.value(c)])
            else:
                raise UnicodeEncodeError(e, '?' * len(cs), i, i + 1,
                                         'not encodable')
            continue
        # utf-8
        if decide(tm.isin(c, ((0, 0x7f),))):
            out.append(c)
        elif decide(tm.isin(c, ((0x80, 0x7ff),))):
            q = tm.divc(c, 64)
            out.append(tm.add(q, 0xc0))
            out.append(tm.add(tm.sub(c, tm.mulc(q, 64)), 0x80))
        elif decide(tm.isin(c, ((0xd800, 0xdfff),))):
            if errors != 'strict':
                raise Unsupported('surrogates')
            raise UnicodeEncodeError('utf-8', '?' * len(cs), i, i + 1,
                                     'surrogates not allowed')
        elif decide(tm.isin(c, ((0x800, 0xffff),))):
            q1 = tm.divc(c, 4096)
            q2 = tm.divc(c, 64)
            out.append(tm.add(q1, 0xe0))
            out.append(tm.add(tm.modc(q2, 64), 0x80))
            out.append(tm.add(tm.modc(c, 64), 0x80))
        else:
            q0 = tm.divc(c, 1 << 18)
            out.append(tm.add(q0, 0xf0))
            out.append(tm.add(tm.modc(tm.divc(c, 4096), 64), 0x80))
            out.append(tm.add(tm.modc(tm.divc(c, 64), 64), 0x80))
            out.append(tm.add(tm.modc(c, 64), 0x80))
    return mkbytes(out)


CONT = ((0x80, 0xbf),)


def _cp1252():
    m = {}
    for b in range(128, 160):
        try:
            m[b] = ord(bytes([b]).decode('cp1252'))
        except UnicodeDecodeError:
            pass
    return m


CP1252 = _cp1252()


def decode(cs, encoding, errors):
    e = _encname(encoding)
    out = []
    n = len(cs)
    dummy = bytes(c if type(c) is int else 63 for c in cs)
    if e == 'latin-1':
        return mkstr(cs)

    def err(i, j, msg):
        if errors == 'strict':
            raise UnicodeDecodeError(e, dummy, i, j, msg)
        if errors == 'replace':
            out.append(0xfffd)
            return
        if errors == 'ignore':
            return
        if errors == 'surrogateescape':
            for k in range(i, j):
                out.append(tm.add(cs[k], 0xdc00))
            return
        if errors == 'backslashreplace':
            for k in range(i, j):
                out.extend(map(ord, '\\x%02x' % en.PATH.value(cs[k])))
            return
        raise Unsupported('errors=%s' % errors)

    if e == 'ascii':
        for i, c in enumerate(cs):
            if decide(tm.isin(c, ASCII)):
                out.append(c)
            else:
                err(i, i + 1, 'ordinal not in range(128)')
        return mkstr(out)
    if e == 'cp1252':
        for i, c in enumerate(cs):
            if decide(tm.isin(c, ((0, 127), (160, 255)))):
                out.append(c)
            elif decide(tm.isin(c, iv_from(CP1252))):
                if type(c) is int:
                    out.append(CP1252[c])
                else:
                    r = None
                    for b, u in CP1252.items():
                        r = u if r is None else tm.ite(tm.eq(c, b), u, r)
                    out.append(r)
            else:
                err(i, i + 1, 'character maps to <undefined>')
        return mkstr(out)
    # utf-8
    i = 0
    while i < n:
        c = cs[i]
        if decide(tm.isin(c, ASCII)):
            out.append(c)
            i += 1
            continue
        if decide(tm.isin(c, ((0xc2, 0xdf),))):
            if i + 1 >= n:
                err(i, n, 'unexpected end of data')
                i = n
                continue
            if not decide(tm.isin(cs[i + 1], CONT)):
                err(i, i + 1, 'invalid continuation byte')
                i += 1
                continue
            out.append(tm.add(tm.mulc(tm.sub(c, 0xc0), 64),
                              tm.sub(cs[i + 1], 0x80)))
            i += 2
            continue
        if decide(tm.isin(c, ((0xe0, 0xef),))):
            if i + 1 >= n:
                err(i, n, 'unexpected end of data')
                i = n
                continue
            d = cs[i + 1]
            if decide(tm.eq(c, 0xe0)):
                ok = ((0xa0, 0xbf),)
            elif decide(tm.eq(c, 0xed)):
                ok = ((0x80, 0x9f),)
            else:
                ok = CONT
            if not decide(tm.isin(d, ok)):
                err(i, i + 1, 'invalid continuation byte')
                i += 1
                continue
            if i + 2 >= n:
                err(i, n, 'unexpected end of data')
                i = n
                continue
            if not decide(tm.isin(cs[i + 2], CONT)):
                err(i, i + 2, 'invalid continuation byte')
                i += 2
                continue
            out.append(tm.add(tm.add(
                tm.mulc(tm.sub(c, 0xe0), 4096),
                tm.mulc(tm.sub(d, 0x80), 64)), tm.sub(cs[i + 2], 0x80)))
            i += 3
            continue
        if decide(tm.isin(c, ((0xf0, 0xf4),))):
            if i + 1 >= n:
                err(i, n, 'unexpected end of data')
                i = n
                continue
            d = cs[i + 1]
            if decide(tm.eq(c, 0xf0)):
                ok = ((0x90, 0xbf),)
            elif decide(tm.eq(c, 0xf4)):
                ok = ((0x80, 0x8f),)
            else:
                ok = CONT
            if not decide(tm.isin(d, ok)):
                err(i, i + 1, 'invalid continuation byte')
                i += 1
                continue
            bad = None
            for k in (2, 3):
                if i + k >= n:
                    bad = n
                    break
                if not decide(tm.isin(cs[i + k], CONT)):
                    bad = i + k
                    break
            if bad is not None:
                err(i, bad, 'invalid continuation byte')
                i = bad
                continue
            v = tm.mulc(tm.sub(c, 0xf0), 1 << 18)
            v = tm.add(v, tm.mulc(tm.sub(d, 0x80), 4096))
            v = tm.add(v, tm.mulc(tm.sub(cs[i + 2], 0x80), 64))
            v = tm.add(v, tm.sub(cs[i + 3], 0x80))
            out.append(v)
            i += 4
            continue
        err(i, i + 1, 'invalid start byte')
        i += 1
    return mkstr(out)

# ------------------------------------------------------------------- lazy


class LazyStr(object):
    """A str whose characters are computed only when looked at.  Parts are
    str, SymStr, ('r', value) for a repr, ('d', term) for a decimal."""
    __slots__ = ('parts', '_f')
    __class__ = property(lambda self: str)

    def __init__(self, parts):
        self.parts = parts
        self._f = None

    def force(self):
        if self._f is None:
            cs = ()
            for p in self.parts:
                if type(p) is tuple:
                    if p[0] == 'r':
                        cs += repr_chars(p[1])
                    else:
                        cs += dec_chars(p[1])
                else:
                    cs += SymStr._chars(p)
            self._f = mkstr(cs)
        return self._f

    def force_chars(self):
        return SymStr._chars(self.force())

    def __add__(self, o):
        if type(o) is LazyStr:
            return LazyStr(self.parts + o.parts)
        if isinstance(o, str):
            return LazyStr(self.parts + [o])
        raise TypeError('can only concatenate str')

    def __radd__(self, o):
        if isinstance(o, str):
            return LazyStr([o] + self.parts)
        return NotImplemented

    def __getattr__(self, name):
        return getattr(self.force(), name)

    def __eq__(self, o):
        if type(o) is LazyStr:
            if len(o.parts) == len(self.parts) and all(
                    _same_part(a, b)
                    for a, b in zip(self.parts, o.parts)):
                return True
            o = o.force()
        if not isinstance(o, str):
            return NotImplemented
        if len(self.parts) == 1 and self.parts[0][0] == 'd' and \
                type(self.parts[0]) is tuple and type(o) is str:
            # decimal of an int against a literal
            try:
                v = int(o)
            except ValueError:
                return False
            if str(v) != o:
                return False
            return mkbool(tm.eq(self.parts[0][1], v))
        return self.force() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        return self.force() < o

    def __gt__(self, o):
        return self.force() > o

    def __le__(self, o):
        return self.force() <= o

    def __ge__(self, o):
        return self.force() >= o

    def __hash__(self):
        return hash(self.force())

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        for p in self.parts:
            if type(p) is tuple or p:
                return True
        return False

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __contains__(self, o):
        return self.force().__contains__(o)

    def __mul__(self, n):
        return self.force() * n

    def __mod__(self, a):
        from .models import percent_format
        return percent_format(self.force(), a)

    def __str__(self):
        f = self.force()
        return f if type(f) is str else f.conc()

    def __repr__(self):
        return '<LazyStr %r>' % (self.parts,)


def _same_part(a, b):
    if type(a) is tuple and type(b) is tuple:
        if a[0] != b[0]:
            return False
        if a[0] == 'd':
            return a[1] is b[1] or (type(a[1]) is int and a[1] == b[1])
        if type(a[1]) is SymStr and type(b[1]) is SymStr:
            return a[1]._c == b[1]._c
        return a[1] is b[1]
    if type(a) is tuple or type(b) is tuple:
        return False
    ac, bc = SymStr._chars(a), SymStr._chars(b)
    return len(ac) == len(bc) and all(
        x is y or (type(x) is int and x == y) for x, y in zip(ac, bc))


def dec_chars(t):
    if type(t) is int:
        return tuple(map(ord, str(t)))
    sign = ()
    if decide(tm.lt(t, 0)):
        sign = (45,)
        t = tm.neg(t)
    k = 1
    while not decide(tm.lt(t, 10 ** k)):
        k += 1
    out = []
    for i in range(k - 1, -1, -1):
        q = tm.divc(t, 10 ** i)
        out.append(tm.add(tm.modc(q, 10) if i < k - 1 else q, 48))
    return sign + tuple(out)


def repr_chars(v):
    if isinstance(v, LazyStr):
        v = v.force()
    if isinstance(v, str):
        cs = SymStr._chars(v)
        has_s = decide(tm.borl([tm.eq(c, 39) for c in cs]))
        has_d = decide(tm.borl([tm.eq(c, 34) for c in cs])) \
            if has_s else True
        q = 34 if (has_s and not has_d) else 39
        out = [q]
        pr = char_table('isprintable')
        for c in cs:
            if decide(tm.eq(c, q)) or decide(tm.eq(c, 92)):
                out.extend((92, c))
            elif decide(tm.isin(c, pr)):
                out.append(c)
            else:
                x = en.PATH.value(c)
                out.extend(map(ord, repr(chr(x))[1:-1]))
        out.append(q)
        return tuple(out)
    if isinstance(v, bytes):
        x = v.conc() if type(v) is SymBytes else v
        return tuple(map(ord, repr(x)))
    raise Unsupported('repr of %s' % type(v).__name__)


def join(sep, parts):
    sc = sep
    parts = list(parts)
    if isinstance(sep, bytes):
        kind = SymBytes
    else:
        kind = SymStr
    if type(sep) is LazyStr:
        sep = sep.force()
    sc = kind._chars(sep)
    lazy = False
    for i, p in enumerate(parts):
        if kind._chars(p) is None:
            if type(p) is LazyStr and kind is SymStr:
                lazy = True
            else:
                raise TypeError(
                    'sequence item %d: expected %s instance, %s found' % (
                        i, kind._tname, type(p).__name__))
    if lazy:
        out = []
        for i, p in enumerate(parts):
            if i and sc:
                out.append(sep)
            if type(p) is LazyStr:
                out.extend(p.parts)
            else:
                out.append(p)
        return LazyStr(out)
    cs = []
    for i, p in enumerate(parts):
        if i:
            cs.extend(sc)
        cs.extend(kind._chars(p))
    return kind._mk(cs)


SYMS = (SymBool, SymInt, SymStr, SymBytes, LazyStr)


def is_sym(x):
    return type(x) in _SYMSET


_SYMSET = frozenset(SYMS)


class SymHash(int):
    """Result of hash() on a value with symbolic parts: ideal hashing (equal
    hashes iff the structures are equal)."""

    def __new__(cls, struct):
        self = int.__new__(cls, 0)
        self.struct = struct
        return self
