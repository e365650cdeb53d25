"""The harness API, symbolic side.  native.py has the concrete twin."""
from . import terms as tm
from . import models
from . import engine as en
from .terms import iv_from, iv_norm, ev, evb
from .values import (SymBool, SymInt, SymStr, SymBytes, LazyStr, SymHash,
                     mkstr, mkbytes, mkint, mkbool, truth, join, _SYMSET,
                     sx_not)
from .containers import SymDict, SymDefaultDict, SymSet, SymFrozenSet

NAMED = {
    'any': ((0, 0xd7ff), (0xe000, 0x10ffff)),
    'text': ((0, 9), (11, 0xd7ff), (0xe000, 0x10ffff)),   # anything but LF
    'bmp': ((0, 0xd7ff), (0xe000, 0xffff)),
    'ascii': ((0, 127),),
    # without the characters that PyPy and CPython disagree on (whitespace
    # for isspace() but not for strip())
    'asciiq': ((0, 27), (32, 127)),
    'bmpq': ((0, 27), (32, 0x180d), (0x180f, 0xd7ff), (0xe000, 0xffff)),
    'printable': ((32, 126),),
    'latin1': ((0, 255),),
    'byte': ((0, 255),),
    'nolf': ((0, 9), (11, 255)),
    'digit': ((48, 57),),
    'alnum': ((48, 57), (65, 90), (97, 122)),
    'lower': ((97, 122),),
    'upper': ((65, 90),),
    'alpha': ((65, 90), (97, 122)),
    'word': ((48, 57), (65, 90), (95, 95), (97, 122)),
}


def alphabet(a):
    """Alphabet spec -> intervals.  str: characters; 'name:' prefix with
    optional '-chars' exclusions, e.g. 'printable:-()'."""
    if isinstance(a, (tuple, list)):
        return iv_norm([tuple(p) for p in a])
    if ':' in a and a.split(':', 1)[0] in NAMED:
        name, rest = a.split(':', 1)
        iv = NAMED[name]
        if rest.startswith('-'):
            iv = tm.iv_and(iv, tm.iv_not(iv_from(map(ord, rest[1:]))))
        elif rest:
            iv = tm.iv_or(iv, iv_from(map(ord, rest)))
        return iv
    return iv_from(map(ord, a))


class Failure(object):
    def __init__(self, label, info, model, known=None):
        self.label = label
        self.info = info
        self.model = model
        self.known = known


class Ctx(object):
    symbolic = True

    def __init__(self, path, tier):
        self._p = path
        self.tier = tier
        self._known = []

    # ---- inputs
    def _fresh(self, name):
        if name in self._p.inputs:
            raise AssertionError('input %r declared twice' % name)
        self._p.inputs[name] = True

    def str(self, name, n, alpha='any:'):
        self._fresh(name)
        iv = alphabet(alpha)
        return mkstr([self._p.new_var('%s[%d]' % (name, i), iv)
                      if tm.iv_size(iv) > 1 else iv[0][0]
                      for i in range(n)])

    def bytes(self, name, n, alpha='byte:'):
        self._fresh(name)
        iv = alphabet(alpha)
        return mkbytes([self._p.new_var('%s[%d]' % (name, i), iv)
                        if tm.iv_size(iv) > 1 else iv[0][0]
                        for i in range(n)])

    def int(self, name, lo, hi):
        self._fresh(name)
        if lo == hi:
            return lo
        return mkint(self._p.new_var(name, ((lo, hi),)))

    def bool(self, name):
        self._fresh(name)
        return mkbool(tm.isin(self._p.new_var(name, ((0, 1),)), ((1, 1),)))

    def choice(self, name, options):
        self._fresh(name)
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self._p.new_var(name, ((0, len(options) - 1),))
        return options[self._p.value(v)]

    # ---- logic helpers that do not fork
    def and_(self, *xs):
        return mkbool(tm.bandl([truth(x) for x in xs]))

    def or_(self, *xs):
        return mkbool(tm.borl([truth(x) for x in xs]))

    def not_(self, x):
        return sx_not(x)

    def implies(self, a, b):
        return mkbool(tm.bor(tm.bnot(truth(a)), truth(b)))

    def iff(self, a, b):
        a, b = truth(a), truth(b)
        return mkbool(tm.bor(tm.band(a, b),
                             tm.band(tm.bnot(a), tm.bnot(b))))

    def fork(self, x):
        """Python bool of x, exploring both."""
        return bool(x)

    # ---- obligations
    def assume(self, cond):
        self._p.assume(truth(cond))

    def cover(self, label):
        self._p.covers.add(label)

    def known(self, kid, cond=True, label=''):
        """Failures whose label starts with `label` are the known finding
        kid when cond holds."""
        self._known.append((kid, truth(cond), label))

    def observe(self, name, value):
        self._p.observed.append((name, value))

    def output(self, which='err'):
        return join('', [t for w, t in self._p.printed if w == which])

    def check(self, cond, label, info=None):
        p = self._p
        b = truth(cond)
        st = p.stats
        st.obligations += 1
        if b is True:
            st.obl_trivial += 1
            return
        q = p.quick(b)
        if q is True:
            st.obl_trivial += 1
            return
        neg = tm.bnot(b)
        self.refute(neg, label, info)
        if b is False:
            raise en.PathEnd('check failed')
        p.assume(b)

    def refute(self, neg, label, info):
        """Is there a model of path condition and neg?  Then: failure."""
        p = self._p
        st = p.stats
        knowns = [(k, c) for k, c, lb in self._known
                  if c is not False and label.startswith(lb)]
        notk = tm.bandl([neg] + [tm.bnot(c) for _, c in knowns])
        st.obl_z3 += 1
        upd = self.z3sat(notk)
        if upd is not None:
            p.failures.append(Failure(label, info, self.model_with(upd)))
        for k, c in knowns:
            upd = self.z3sat(tm.band(neg, c))
            if upd is not None:
                p.failures.append(Failure(label, info,
                                          self.model_with(upd), k))

    def z3sat(self, c):
        p = self._p
        if c is False:
            return None
        vs = set() if c is True else set(c.vars)
        todo = list(p.cons)
        used = []
        grew = True
        while grew:
            grew = False
            rest = []
            for k in todo:
                if c is True or k.vars & vs:
                    used.append(k)
                    if not k.vars <= vs:
                        vs |= k.vars
                        grew = True
                else:
                    rest.append(k)
            todo = rest
        if c is True:
            vs = set(p.dom)
        return p.solver.check([(v, p.dom[v]) for v in vs],
                              used + ([] if c is True else [c]))

    def model_with(self, upd):
        p = self._p
        m = dict((v.args[0], x) for v, x in p.model.items())
        m.update((v.args[0], x) for v, x in upd.items())
        return m


def plain(x, m, depth=8):
    """Evaluate a value under model m to JSON-able plain data."""
    t = type(x)
    if x is None or t in (str, int, bool, float):
        return x
    if t is SymInt:
        return ev(x.t, m)
    if t is SymBool:
        return evb(x.b, m)
    if t is SymStr:
        return ''.join(chr(ev(c, m)) for c in x._c)
    if t is SymBytes:
        return {'b': ''.join(chr(ev(c, m)) for c in x._c)}
    if t is models.SymByteArray:
        return plain(x._b(), m)
    if t is bytes:
        return {'b': x.decode('latin1')}
    if t is LazyStr:
        if x._f is not None:
            return plain(x._f, m)
        out = []
        for p in x.parts:
            if type(p) is tuple:
                if p[0] == 'd':
                    out.append(str(ev(p[1], m) if type(p[1]) is not int
                                   else p[1]))
                else:
                    v = plain(p[1], m)
                    if isinstance(v, dict):
                        v = v['b'].encode('latin1')
                    out.append(repr(v))
            else:
                out.append(plain(p, m))
        return ''.join(out)
    if t in (list, tuple):
        return [plain(i, m, depth - 1) for i in x]
    if t in (SymSet, SymFrozenSet):
        seen = []
        for g, v in x._entries():
            if g is True or evb(g, m):
                pv = plain(v, m, depth - 1)
                if pv not in seen:
                    seen.append(pv)
        return sorted(seen, key=repr)
    if isinstance(x, (set, frozenset)):
        return sorted([plain(i, m, depth - 1) for i in x], key=repr)
    if isinstance(x, dict):
        return sorted([[plain(k, m, depth - 1), plain(v, m, depth - 1)]
                       for k, v in x.items()], key=repr)
    return '<%s>' % t.__name__
