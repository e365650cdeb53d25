"""Regular expressions over symbolic strings: an interpreter of the parse
tree that CPython's own re compiler works from."""
import re
import re._parser as rp
import re._constants as rc
from . import terms as tm
from . import engine as en
from .terms import iv_norm, iv_not, iv_and
from .values import (SymStr, SymBytes, LazyStr, char_table, decide,
                     Unsupported, seq_eq, mkstr)

MAXC = 0x10ffff
_parsed = {}


def parse(pat, flags, extra=None):
    key = (pat, flags)
    r = _parsed.get(key)
    if r is None:
        r = _parsed[key] = rp.parse(pat, flags)
    return r


WORD_A = ((48, 57), (65, 90), (95, 95), (97, 122))


def category(cat, isb, flags):
    asc = isb or (flags & re.ASCII)
    neg = False
    n = str(cat).lower()
    if 'not_' in n:
        neg = True
    if 'digit' in n:
        iv = ((48, 57),) if asc else char_table('isdecimal')
    elif 'space' in n:
        iv = ((9, 13), (32, 32)) if asc else char_table('isspace')
    elif 'word' in n:
        iv = WORD_A if asc else iv_norm(char_table('isalnum') + ((95, 95),))
    else:
        raise Unsupported('category %s' % cat)
    if neg:
        iv = iv_and(iv_not(iv), ((0, 255 if isb else MAXC),))
    return iv


def ci(iv):
    out = list(iv)
    for lo, hi in iv:
        if lo > 127 or hi - lo > 300:
            continue
        for c in range(lo, min(hi, 127) + 1):
            ch = chr(c)
            if ch.isalpha():
                out.append((ord(ch.swapcase()),) * 2)
    return iv_norm(out)


SINGLE = (rc.LITERAL, rc.NOT_LITERAL, rc.ANY, rc.IN)


class M(object):
    """One matching attempt."""

    def __init__(self, chars, isb, flags, subst, endpos):
        self.c = chars
        self.isb = isb
        self.flags = flags
        self.subst = subst        # placeholder code -> term
        self.end = endpos
        self.start = 0

    def lit(self, code):
        if self.subst:
            return self.subst.get(code, code)
        return code

    def one(self, op, av, pos):
        """B term: does the single-char node match at pos?"""
        if op not in SINGLE:
            return None
        if pos >= self.end:
            return False
        c = self.c[pos]
        fl = self.flags
        if op is rc.LITERAL:
            l = self.lit(av)
            if fl & re.IGNORECASE and type(l) is int:
                return tm.isin(c, ci(((l, l),)))
            return tm.eq(c, l)
        if op is rc.NOT_LITERAL:
            l = self.lit(av)
            if fl & re.IGNORECASE and type(l) is int:
                return tm.bnot(tm.isin(c, ci(((l, l),))))
            return tm.bnot(tm.eq(c, l))
        if op is rc.ANY:
            if fl & re.DOTALL:
                return True
            return tm.bnot(tm.eq(c, 10))
        if op is rc.IN:
            neg = False
            parts = []
            iv = []
            for o, a in av:
                if o is rc.NEGATE:
                    neg = True
                elif o is rc.LITERAL:
                    l = self.lit(a)
                    if type(l) is int:
                        iv.append((l, l))
                    else:
                        parts.append(tm.eq(c, l))
                elif o is rc.RANGE:
                    iv.append((a[0], a[1]))
                elif o is rc.CATEGORY:
                    iv.extend(category(a, self.isb, fl))
                else:
                    raise Unsupported('in: %s' % o)
            iv = iv_norm(iv)
            if fl & re.IGNORECASE:
                iv = ci(iv)
            r = tm.borl([tm.isin(c, iv)] + parts)
            return tm.bnot(r) if neg else r
        return None

    def at(self, av, pos):
        n = str(av)
        if n == 'AT_BEGINNING':
            if pos == 0:
                return True
            if self.flags & re.MULTILINE:
                return decide(tm.eq(self.c[pos - 1], 10))
            return False
        if n == 'AT_BEGINNING_STRING':
            return pos == 0
        if n == 'AT_END_STRING':
            return pos == self.end
        if n == 'AT_END':
            if pos == self.end:
                return True
            if self.flags & re.MULTILINE:
                return decide(tm.eq(self.c[pos], 10))
            return pos == self.end - 1 and decide(tm.eq(self.c[pos], 10))
        if n in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            w = category('word', self.isb, self.flags)

            def isw(p):
                return 0 <= p < self.end and decide(tm.isin(self.c[p], w))
            b = isw(pos - 1) != isw(pos)
            return b if n == 'AT_BOUNDARY' else not b
        raise Unsupported('at %s' % n)

    def seq(self, items, i, pos, gr, k):
        """Match items[i:] at pos, then continuation k(pos, gr)."""
        en.PATH.tick()
        while True:
            if i >= len(items):
                return k(pos, gr)
            op, av = items[i]
            b = self.one(op, av, pos)
            if b is None:
                break
            if not decide(b):
                return None
            pos += 1
            i += 1
        items_, i_ = items, i + 1

        def nxt(p, g):
            return self.seq(items_, i_, p, g, k)

        if op is rc.AT:
            return nxt(pos, gr) if self.at(av, pos) else None
        if op is rc.SUBPATTERN:
            gid, add, dele, sub = av
            old = self.flags
            if add or dele:
                self.flags = (old | add) & ~dele

            def after(p, g):
                cur = self.flags
                self.flags = old
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                    g['last'] = gid
                r = nxt(p, g)
                self.flags = cur
                return r
            r = self.seq(list(sub), 0, pos, gr, after)
            self.flags = old
            return r
        if op is rc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, gr, nxt)
                if r is not None:
                    return r
            return None
        if op in (rc.MAX_REPEAT, rc.MIN_REPEAT, rc.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = self.end + 1 if hi is rc.MAXREPEAT else hi
            if len(sub) == 1 and self.one(sub[0][0], sub[0][1],
                                          self.end) is not None:
                return self.single(op, lo, hi, sub[0], pos, gr, nxt)
            return self.repeat(op, lo, hi, sub, pos, gr, nxt, 0, None)
        if op is rc.ATOMIC_GROUP:
            r = self.seq(list(av), 0, pos, gr, lambda p, g: (p, g))
            return None if r is None else nxt(*r)
        if op is rc.ASSERT or op is rc.ASSERT_NOT:
            direction, sub = av
            sub = list(sub)
            if direction < 0:
                w = rp.SubPattern(None, sub).getwidth() if False else \
                    _width(sub)
                st = pos - w
                if st < 0:
                    r = None
                else:
                    r = self.seq(sub, 0, st, gr,
                                 lambda p, g: (p, g) if p == pos else None)
            else:
                r = self.seq(sub, 0, pos, gr, lambda p, g: (p, g))
            if op is rc.ASSERT:
                return None if r is None else nxt(pos, r[1])
            return None if r is not None else nxt(pos, gr)
        if op is rc.GROUPREF:
            if av not in gr:
                return None
            s, e = gr[av]
            n = e - s
            if pos + n > self.end or not decide(
                    seq_eq(self.c[s:e], self.c[pos:pos + n])):
                return None
            return nxt(pos + n, gr)
        if op is rc.GROUPREF_EXISTS:
            gid, yes, no = av
            if gid in gr:
                return self.seq(list(yes), 0, pos, gr, nxt)
            if no is None:
                return nxt(pos, gr)
            return self.seq(list(no), 0, pos, gr, nxt)
        raise Unsupported('regex op %s' % op)

    def single(self, op, lo, hi, node, pos, gr, nxt):
        o, a = node
        if op is rc.MIN_REPEAT:
            n = 0
            while n < lo:
                if not decide(self.one(o, a, pos)):
                    return None
                pos += 1
                n += 1
            while True:
                r = nxt(pos, gr)
                if r is not None:
                    return r
                if n >= hi or not decide(self.one(o, a, pos)):
                    return None
                pos += 1
                n += 1
        n = 0
        p = pos
        while n < hi and decide(self.one(o, a, p)):
            p += 1
            n += 1
        if n < lo:
            return None
        if op is rc.POSSESSIVE_REPEAT:
            return nxt(p, gr)
        while True:
            r = nxt(p, gr)
            if r is not None:
                return r
            if n <= lo:
                return None
            p -= 1
            n -= 1

    def repeat(self, op, lo, hi, sub, pos, gr, nxt, n, lastpos):
        if op is rc.POSSESSIVE_REPEAT:
            while n < hi:
                r = self.seq(sub, 0, pos, gr, lambda p, g: (p, g))
                if r is None or (r[0] == pos and n >= lo):
                    break
                pos, gr = r
                n += 1
            return nxt(pos, gr) if n >= lo else None

        def more():
            return self.seq(
                sub, 0, pos, gr,
                lambda p, g: self.repeat(op, lo, hi, sub, p, g, nxt, n + 1,
                                         pos))
        if n < lo:
            return more()
        if op is rc.MAX_REPEAT:
            if n < hi and lastpos != pos:
                r = more()
                if r is not None:
                    return r
            return nxt(pos, gr)
        r = nxt(pos, gr)
        if r is not None:
            return r
        if n < hi and lastpos != pos:
            return more()
        return None


def _width(items):
    w = 0
    for op, av in items:
        if op in (rc.LITERAL, rc.NOT_LITERAL, rc.ANY, rc.IN):
            w += 1
        elif op is rc.AT:
            pass
        elif op is rc.SUBPATTERN:
            w += _width(list(av[3]))
        elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT) and av[0] == av[1]:
            w += av[0] * _width(list(av[2]))
        elif op is rc.BRANCH:
            ws = set(_width(list(a)) for a in av[1])
            if len(ws) != 1:
                raise Unsupported('lookbehind')
            w += ws.pop()
        else:
            raise Unsupported('lookbehind')
    return w


class SymPattern(object):
    """A compiled pattern applied to symbolic text (or with symbolic
    literals)."""

    def __init__(self, pattern, flags=0, subst=None):
        self.pattern = pattern
        self.tree = parse(pattern, flags)
        self.flags = self.tree.state.flags | flags
        if isinstance(pattern, str) and not self.flags & re.ASCII:
            self.flags |= re.UNICODE
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self.subst = subst
        self.items = list(self.tree)
        self.isb = isinstance(pattern, bytes)

    def _chars(self, s):
        if type(s) is LazyStr:
            s = s.force()
        k = SymBytes if self.isb else SymStr
        cs = k._chars(s)
        if cs is None:
            raise TypeError('expected string or bytes-like object')
        return cs, s

    def _at(self, cs, pos, endpos, full, must_advance=False):
        m = M(cs, self.isb, self.flags, self.subst, endpos)

        def k(p, g):
            if full and p != endpos:
                return None
            if must_advance and p == pos:
                return None
            return (p, g)
        return m.seq(self.items, 0, pos, {}, k)

    def _run(self, s, pos, endpos, mode, must_advance=False):
        cs, s = self._chars(s)
        n = len(cs)
        endpos = n if endpos is None else max(0, min(n, endpos))
        pos = max(0, min(n, pos))
        if mode == 'search':
            p = pos
            while p <= endpos:
                r = self._at(cs, p, endpos, False, must_advance)
                if r is not None:
                    return SymMatch(self, s, cs, p, r[0], r[1], pos, endpos)
                must_advance = False
                p += 1
            return None
        r = self._at(cs, pos, endpos, mode == 'fullmatch')
        if r is None:
            return None
        return SymMatch(self, s, cs, pos, r[0], r[1], pos, endpos)

    def match(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'match')

    def fullmatch(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'fullmatch')

    def search(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, 'search')

    def finditer(self, string, pos=0, endpos=None):
        adv = False
        while True:
            m = self._run(string, pos, endpos, 'search', adv)
            if m is None:
                return
            yield m
            adv = (m.end() == m.start())
            pos = m.end()

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None
                           else m._empty())
            else:
                out.append(tuple(g if g is not None else m._empty()
                                 for g in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        cs, s = self._chars(string)
        mk = SymBytes._mk if self.isb else SymStr._mk
        out = []
        last = 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit * (1 + self.groups):
                break
            out.append(mk(cs[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
        out.append(mk(cs[last:]))
        return out

    def subn(self, repl, string, count=0):
        from .models import sx_call
        cs, s = self._chars(string)
        mk = SymBytes._mk if self.isb else SymStr._mk
        kind = SymBytes if self.isb else SymStr
        out = []
        last = n = 0
        tmpl = None
        fn = callable(repl) and not isinstance(repl, (str, bytes))
        if not fn:
            if type(repl) in (str, bytes):
                tmpl = _template(repl, self)
            else:
                rcs = kind._chars(repl)
                if any(type(c) is not int and
                       en.PATH.quick(tm.eq(c, 92)) is not False
                       for c in rcs):
                    if decide(tm.borl([tm.eq(c, 92) for c in rcs])):
                        raise Unsupported('symbolic template')
                tmpl = [repl]
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(cs[last:m.start()])
            if fn:
                out.extend(kind._chars(sx_call(repl, m)))
            else:
                for part in tmpl:
                    if type(part) is int:
                        g = m.group(part)
                        if g is not None:
                            out.extend(kind._chars(g))
                    else:
                        out.extend(kind._chars(part))
            last = m.end()
            n += 1
        out.extend(cs[last:])
        return mk(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


def _template(repl, pat):
    class P(object):
        groups = pat.groups
        groupindex = pat.groupindex
        pattern = pat.pattern
    r = rp.parse_template(repl, P)
    if isinstance(r, tuple):
        groups, lits = r
        out = list(lits)
        for i, g in groups:
            out[i] = g
        return [x for x in out if x is not None]
    return [x for x in r if x != '' and x != b'']


class SymMatch(object):
    __class__ = property(lambda self: re.Match)

    def __init__(self, pat, string, cs, start, end, groups, pos, endpos):
        self.re = pat
        self.string = string
        self._c = cs
        self._g = dict(groups)
        self.lastindex = self._g.pop('last', None)
        self._g[0] = (start, end)
        self.pos = pos
        self.endpos = endpos

    def _mk(self, cs):
        return SymBytes._mk(cs) if self.re.isb else SymStr._mk(cs)

    @property
    def lastgroup(self):
        for name, n in self.re.groupindex.items():
            if n == self.lastindex:
                return name

    def _empty(self):
        return b'' if self.re.isb else ''

    def _gid(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError('no such group')
        g = g.__index__()
        if g < 0 or g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _one(self, g, default=None):
        g = self._gid(g)
        if g not in self._g:
            return default
        s, e = self._g[g]
        return self._mk(self._c[s:e])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def expand(self, template):
        kind = SymBytes if self.re.isb else SymStr
        out = []
        for part in _template(template, self.re):
            g = self.group(part) if type(part) is int else part
            if g is not None:
                out.extend(kind._chars(g))
        return self._mk(out)

    def groups(self, default=None):
        return tuple(self._one(i, default)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, self._one(v, default))
                    for k, v in self.re.groupindex.items())

    def start(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))[0]

    def end(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))[1]

    def span(self, g=0):
        return self._g.get(self._gid(g), (-1, -1))

    def __bool__(self):
        return True


PUA = 0xf0000


def from_pattern(pat):
    """re.Pattern -> SymPattern (cached on the side)."""
    r = _pats.get(pat)
    if r is None:
        r = _pats[pat] = SymPattern(pat.pattern, pat.flags)
    return r


_pats = {}


def compile_sym(pattern, flags=0):
    """pattern may be a SymStr with esc() markers."""
    if isinstance(pattern, re.Pattern):
        return from_pattern(pattern)
    if type(pattern) is SymPattern:
        return pattern
    if type(pattern) is LazyStr:
        pattern = pattern.force()
    if type(pattern) in (str, bytes):
        return SymPattern(pattern, int(flags))
    kind = SymBytes if type(pattern) is SymBytes else SymStr
    if kind is SymBytes:
        return SymPattern(pattern.conc(), int(flags))
    out = []
    subst = {}
    for c in pattern._c:
        if type(c) is int:
            out.append(chr(c))
        elif c.op == 'esc':
            code = PUA + len(subst)
            subst[code] = c.args[0]
            out.append(chr(code))
        else:
            out.append(chr(en.PATH.value(c)))
    return SymPattern(''.join(out), int(flags), subst)


def escape(s):
    if type(s) is LazyStr:
        s = s.force()
    if type(s) is not SymStr:
        return re.escape(s)
    out = []
    for c in s._c:
        if type(c) is int:
            out.extend(map(ord, re.escape(chr(c))))
        else:
            out.append(tm.esc(c))
    return mkstr(out)
