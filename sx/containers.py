"""dict and set with symbolic (or user-defined-equality) keys."""
from . import terms as tm
from . import engine as en
from .values import (SymBool, SymInt, SymStr, SymBytes, LazyStr, SymHash,
                     SYMS, _SYMSET, mkbool, mkint, truth, decide, as_b,
                     sx_not, b2i, seq_eq)

_PLAIN = frozenset((str, int, bytes, bool, type(None), float))


def plain_key(k):
    """Keys for which native hashing is exact."""
    t = type(k)
    if t in _PLAIN:
        return True
    if t in _SYMSET:
        return False
    if t is tuple or t is frozenset:
        return all(plain_key(i) for i in k)
    if t is SymFrozenSet:
        return False
    # classes, functions, instances with identity semantics
    if isinstance(k, type):
        return type(k).__eq__ is type.__eq__
    return t.__eq__ is object.__eq__ and t.__hash__ is object.__hash__


def struct_hash(x):
    """Structure whose equality models hash equality."""
    t = type(x)
    if t in _PLAIN:
        if t is bool:
            return ('v', int(x))
        if t is float and x.is_integer():
            return ('v', int(x))
        if t is str or t is bytes:
            return ('s', t is str, tuple(map(ord, x)) if t is str
                    else tuple(x))
        return ('v', x)
    if t is SymInt:
        return ('t', x.t)
    if t is SymBool:
        return ('t', b2i(x.b))
    if t is SymStr or t is SymBytes:
        return ('s', t is SymStr, x._c)
    if t is LazyStr:
        return struct_hash(x.force())
    if t is SymHash:
        return x.struct
    if t is tuple:
        return ('T',) + tuple(struct_hash(i) for i in x)
    if t is SymFrozenSet:
        return ('F', x)
    if isinstance(x, type) or t.__hash__ is object.__hash__:
        return ('v', id(x))
    if t.__hash__ is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if isinstance(x, (list, dict, set)) and t.__hash__ in (
            list.__hash__, dict.__hash__, set.__hash__):
        raise TypeError("unhashable type: '%s'" % t.__name__)
    h = x.__hash__()
    if type(h) is SymHash:
        return h.struct
    if type(h) is SymInt:
        return ('t', h.t)
    return ('v', h)


def struct_eq(a, b):
    """B term: the two structures (hence hashes) are equal."""
    ka, kb = a[0], b[0]
    if ka in 'vt' and kb in 'vt':
        x, y = a[1], b[1]
        if type(x) in (int, tm.T) and type(y) in (int, tm.T):
            return tm.eq(x, y)
        return bool(x == y)
    if ka != kb:
        return False
    if ka == 's':
        return a[1] == b[1] and seq_eq(a[2], b[2])
    if ka == 'F':
        return as_b(a[1] == b[1])
    if len(a) != len(b):
        return False
    return tm.bandl([struct_eq(x, y) for x, y in zip(a[1:], b[1:])])


def fast_eq(a, b):
    """a == b as B term, for non-instance values without forking."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = tm.band(r, fast_eq(x, y))
            if r is False:
                return False
        return r
    r = (a == b)
    return truth(r)


def key_eq(a, ha, b, hb):
    """Would a dict consider keys a and b the same?  Python bool (forks)."""
    if a is b:
        return True
    if not decide(struct_eq(ha, hb)):
        return False
    return decide(fast_eq(a, b))


class _K(object):
    """Wrapper of a key that native hashing cannot handle."""
    __slots__ = ('k', 'h')

    def __init__(self, k, h):
        self.k = k
        self.h = h


_MISSING = object()


class SymDict(dict):
    """dict whose keys may be symbolic.  Native storage; keys that native
    hashing cannot handle are wrapped in _K (identity hash)."""
    __slots__ = ('_sk',)      # list of _K

    def __new__(cls, *a, **kw):
        self = dict.__new__(cls)
        self._sk = []
        return self

    def __init__(self, *a, **kw):
        dict.__init__(self)
        if a or kw:
            self.update(*a, **kw)

    # -- lookup: returns native key or _MISSING
    def _find(self, key):
        if plain_key(key):
            if dict.__contains__(self, key):
                return key
            if not self._sk:
                return _MISSING
            h = struct_hash(key)
            for w in self._sk:
                if key_eq(key, h, w.k, w.h):
                    return w
            return _MISSING
        h = struct_hash(key)
        for k in list(dict.keys(self)):
            if type(k) is _K:
                if key_eq(key, h, k.k, k.h):
                    return k
            elif k is key:
                return k
            else:
                # cheap pre-filter
                c = struct_eq(h, struct_hash(k))
                if c is False:
                    continue
                if decide(c) and decide(fast_eq(key, k)):
                    return k
        return _MISSING

    def __getitem__(self, key):
        k = self._find(key)
        if k is _MISSING:
            return self.__missing__(key)
        return dict.__getitem__(self, k)

    def __missing__(self, key):
        raise KeyError(key)

    def get(self, key, default=None):
        k = self._find(key)
        return default if k is _MISSING else dict.__getitem__(self, k)

    def __setitem__(self, key, value):
        k = self._find(key)
        if k is _MISSING:
            if plain_key(key):
                k = key
            else:
                k = _K(key, struct_hash(key))
                self._sk.append(k)
        dict.__setitem__(self, k, value)

    def __delitem__(self, key):
        k = self._find(key)
        if k is _MISSING:
            raise KeyError(key)
        dict.__delitem__(self, k)
        if type(k) is _K:
            self._sk.remove(k)

    def b_contains(self, key):
        """Membership as one B term if possible."""
        if plain_key(key):
            if dict.__contains__(self, key):
                return True
            if not self._sk:
                return False
        t = type(key)
        if t in (SymInt, SymStr, SymBytes, SymBool) or plain_key(key):
            h = struct_hash(key)
            parts = []
            for k in dict.keys(self):
                if type(k) is _K:
                    if type(k.k) not in _SYMSET:
                        return decide_find(self, key)
                    parts.append(tm.band(struct_eq(h, k.h),
                                         fast_eq(key, k.k)))
                else:
                    c = struct_eq(h, struct_hash(k))
                    if c is not False:
                        parts.append(tm.band(c, fast_eq(key, k)))
            return tm.borl(parts)
        return decide_find(self, key)

    def __contains__(self, key):
        return decide(self.b_contains(key))

    def has_key(self, key):
        return self._find(key) is not _MISSING

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is _MISSING:
            self[key] = default
            return default
        return dict.__getitem__(self, k)

    def pop(self, key, *default):
        k = self._find(key)
        if k is _MISSING:
            if default:
                return default[0]
            raise KeyError(key)
        if type(k) is _K:
            self._sk.remove(k)
        return dict.pop(self, k)

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is _K:
            self._sk.remove(k)
            k = k.k
        return (k, v)

    def clear(self):
        dict.clear(self)
        self._sk = []

    def _keys(self):
        if self._sk:
            return [k.k if type(k) is _K else k for k in dict.keys(self)]
        return list(dict.keys(self))

    def __iter__(self):
        if self._sk:
            n = len(self)
            for k in list(dict.keys(self)):
                yield k.k if type(k) is _K else k
                if len(self) != n:
                    raise RuntimeError(
                        'dictionary changed size during iteration')
        else:
            yield from dict.__iter__(self)

    def __reversed__(self):
        return iter(self._keys()[::-1])

    def keys(self):
        return dict.keys(self) if not self._sk else _View(self._keys())

    def values(self):
        return dict.values(self)

    def items(self):
        if not self._sk:
            return dict.items(self)
        return _View(list(zip(self._keys(), dict.values(self))))

    def update(self, *a, **kw):
        for src in a:
            if isinstance(src, dict) or hasattr(src, 'keys'):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = type(self)()
        r.update(self)
        return r

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        r = True
        for k in self:
            if isinstance(o, SymDict):
                v = o.get(k, _MISSING)
            else:
                v = SymDict(o).get(k, _MISSING)
            if v is _MISSING:
                return False
            r = tm.band(r, fast_eq(self[k], v))
        return mkbool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % kv for kv in self.items()) + '}'

    def __reduce__(self):
        return (dict, (list(self.items()),))


def decide_find(d, key):
    return d._find(key) is not _MISSING


class _View(list):
    def __and__(self, o):
        return SymSet(self) & o

    def __or__(self, o):
        return SymSet(self) | o

    def __sub__(self, o):
        return SymSet(self) - o


class SymDefaultDict(SymDict):
    __slots__ = ('default_factory',)

    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        from .models import sx_call
        v = sx_call(self.default_factory)
        self[key] = v
        return v

    def copy(self):
        r = SymDefaultDict(self.default_factory)
        r.update(self)
        return r

    def __reduce__(self):
        return (dict, (list(self.items()),))


class SymSet(object):
    """set; elements are (guard, value) pairs that may repeat; duplicates
    are resolved when the set is iterated or counted."""
    __class__ = property(lambda self: set)

    def __init__(self, it=()):
        self._e = []           # list of (guard, value)
        self._norm = True      # no guards, no duplicates
        self._plain = {}       # keys, in order, while everything is plain
        for x in it:
            self.add(x)

    # representation: _plain is the native set when self._e is None-like
    def add(self, x):
        if self._plain is not None:
            if plain_key(x):
                self._plain[x] = None
                return
            self._e = [(True, v) for v in self._plain]
            self._plain = None
        struct_hash(x)      # TypeError for unhashables
        self._e.append((True, x))
        self._norm = False

    def _entries(self):
        if self._plain is not None:
            return [(True, v) for v in self._plain]
        return self._e

    def _resolve(self):
        """Fork until guards and duplicates are decided."""
        if self._plain is not None or self._norm:
            return
        out = []
        for g, v in self._e:
            if not decide(g):
                continue
            h = struct_hash(v)
            for w, hw in out:
                if key_eq(v, h, w, hw):
                    break
            else:
                out.append((v, h))
        self._e = [(True, v) for v, _ in out]
        self._norm = True

    def b_contains(self, x):
        h = struct_hash(x)
        if self._plain is not None and plain_key(x):
            return x in self._plain
        parts = []
        for g, v in self._entries():
            c = struct_eq(h, struct_hash(v))
            if c is False:
                continue
            c = tm.band(g, c)
            if c is False:
                continue
            c = tm.band(c, fast_eq(x, v))
            if c is True:
                return True
            parts.append(c)
        return tm.borl(parts)

    def __contains__(self, x):
        return decide(self.b_contains(x))

    def b_any(self):
        if self._plain is not None:
            return bool(self._plain)
        return tm.borl([g for g, _ in self._e])

    def __bool__(self):
        return decide(self.b_any())

    def b_len(self):
        """Number of distinct elements as a term (non-forking)."""
        if self._plain is not None:
            return len(self._plain)
        if self._norm:
            return len(self._e)
        r = 0
        hs = [struct_hash(v) for _, v in self._e]
        for i, (g, v) in enumerate(self._e):
            dup = []
            for j in range(i):
                c = struct_eq(hs[i], hs[j])
                if c is False:
                    continue
                dup.append(tm.band(self._e[j][0],
                                   tm.band(c, fast_eq(v, self._e[j][1]))))
            r = tm.add(r, b2i(tm.band(g, tm.bnot(tm.borl(dup)))))
        return r

    def __len__(self):
        if self._plain is not None:
            return len(self._plain)
        self._resolve()
        return len(self._e)

    def __iter__(self):
        if self._plain is not None:
            return iter(list(self._plain))
        self._resolve()
        return iter([v for _, v in self._e])

    @classmethod
    def _of(cls, o):
        if type(o) in (SymSet, SymFrozenSet):
            return o
        return SymSet(o)

    def _isset(self, o):
        return type(o) in (SymSet, SymFrozenSet, set, frozenset, _View) or \
            isinstance(o, (set, frozenset))

    def _mk(self, entries):
        r = type(self)()
        if all(g is True and plain_key(v) for g, v in entries):
            r._plain = dict.fromkeys(v for _, v in entries)
        else:
            r._plain = None
            r._e = [(g, v) for g, v in entries if g is not False]
            r._norm = False
        return r

    def intersection(self, *os):
        r = self
        for o in os:
            o = self._of(o)
            r = r._mk([(tm.band(g, o.b_contains(v)), v)
                       for g, v in r._entries()])
        return r

    def difference(self, *os):
        r = self
        for o in os:
            o = self._of(o)
            r = r._mk([(tm.band(g, tm.bnot(o.b_contains(v))), v)
                       for g, v in r._entries()])
        return r

    def union(self, *os):
        e = list(self._entries())
        for o in os:
            e.extend(self._of(o)._entries())
        return self._mk(e)

    def symmetric_difference(self, o):
        o = self._of(o)
        return self.difference(o).union(o.difference(self))

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    def __rand__(self, o):
        return self._of(o).intersection(self)

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    __ror__ = __or__

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return self._of(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def _become(self, o):
        self._e, self._norm, self._plain = o._e, o._norm, o._plain
        return self

    def __ior__(self, o):
        return self._become(self.union(o))

    def __iand__(self, o):
        return self._become(self.intersection(o))

    def __isub__(self, o):
        return self._become(self.difference(o))

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def intersection_update(self, *os):
        self._become(self.intersection(*os))

    def difference_update(self, *os):
        self._become(self.difference(*os))

    def discard(self, x):
        self._become(self.difference([x]))

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self._become(type(self)())

    def copy(self):
        r = type(self)()
        r._e = list(self._e)
        r._norm = self._norm
        r._plain = None if self._plain is None else dict(self._plain)
        return r

    def b_subset(self, o):
        o = self._of(o)
        return tm.bandl([tm.bor(tm.bnot(g), o.b_contains(v))
                         for g, v in self._entries()])

    def issubset(self, o):
        return mkbool(self.b_subset(o))

    def issuperset(self, o):
        return mkbool(self._of(o).b_subset(self))

    def isdisjoint(self, o):
        return mkbool(tm.bnot(self.intersection(o).b_any()))

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        o = self._of(o)
        return mkbool(tm.band(self.b_subset(o), tm.bnot(o.b_subset(self))))

    def __gt__(self, o):
        return self._of(o) < self

    def __eq__(self, o):
        if not self._isset(o):
            return NotImplemented
        o = self._of(o)
        return mkbool(tm.band(self.b_subset(o), o.b_subset(self)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    __hash__ = None

    def __repr__(self):
        return '<SymSet %r>' % ([v for _, v in self._entries()],)

    def __reduce__(self):
        return (set, (list(self),))


class SymFrozenSet(SymSet):
    __class__ = property(lambda self: frozenset)

    def __hash__(self):
        return hash(frozenset(self))
