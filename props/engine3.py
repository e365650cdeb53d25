"""The engine against CPython and PyPy: augmented assignment, mutation of
sequences, bytes and numbers (./check engine3; not a property)."""
import collections
import copy
import functools
import itertools
import operator
import os
import re
import string
import sys

BOUNDS = {'quick': 'x', 'thorough': 'x'}
OUTSIDE = 'x'
COVERS = ()


def f_augadd(s):
    l = []
    l += s
    l += (s,)
    l += map(str.upper, s)
    l[0:1] += 'z'
    t = s
    t += 'q'
    t *= 2
    d = {'k': s}
    d['k'] += 'x'
    return l, t, d


def f_augset(s):
    a = set(s)
    a |= {'z'}
    a -= {'a'}
    b = set(s)
    b &= {'a', '-'}
    b ^= {'a'}
    return sorted(a), sorted(b)


def f_augset2(s):
    a = set()
    a.update(s, 'q')
    a.discard('-')
    a.difference_update('a')
    try:
        a.remove('z')
    except KeyError:
        a.add('zz')
    return sorted(a), len(a), a.issuperset('q'), a.copy() == a


def f_augint(s):
    n = 0
    for c in s:
        n += c == 'a'
        n <<= 1
        n |= c == ';'
        n ^= 3
    n -= True
    n *= -1
    n //= 2
    n %= 5
    return n, n & 3, n >> 1


def f_extend(s):
    l = [s]
    l.extend(c for c in s)
    l.extend(s)
    l[1:1] = s
    l[-1:] = [s]
    return l


def f_slicedel(s):
    l = list(s + 'xyz')
    del l[::2]
    l[len(s):] = ['e']
    l.reverse()
    return l, l[-2:], l[5:], l[:-1]


def f_poplist(s):
    l = list(s)
    out = []
    while l:
        if l[-1] == 'a':
            out.append(l.pop())
        else:
            out.append(l.pop(0))
    return out


def f_removelist(s):
    l = list(s)
    try:
        l.remove('a')
    except ValueError:
        l.append('none')
    if '-' in l:
        l[l.index('-')] = 'D'
    return l


def f_negslice(s):
    n = s.count('a')
    return (s[:-1], s[-2:], s[n:], s[:len(s) - n], s[-n:], s[n:-n or None],
            s[slice(n)], s[n::-1], s[99:], s[:99])


def f_boolarith(s):
    e = s.endswith('a')
    d = s.startswith('-')
    return s[:len(s) - e - d], [1, 2][e], 'xy'[d], e + d, e * 3, 'ab' * e, \
        -e, e and d, e or s, not e, e ^ d, e | d, e & d, e == d, e < d


def f_starcall(s):
    def f(a, *b, c=None, **d):
        return a, b, c, sorted(d.items())
    return f(*s or 'q'), f(s, c=s, **{'k': s}), f(*[s], *(1, 2))


def f_unpack(s):
    a, *b, c = 'x' + s + 'y'
    [d, (e, f)] = [1, (s, 3)]
    return a, b, c, d, e, f, [*s, *s], {**{'k': s}, 'z': 1}, (*s, 1), {*s} == set(s)


def f_kwsort(s):
    l = [(c, i) for i, c in enumerate(s)]
    return sorted(l), sorted(l, key=lambda x: x[0], reverse=True), \
        sorted(l, key=operator.itemgetter(1)), max(l, default=None), \
        min(l, key=lambda x: (x[0] != 'a', x[1]), default=None)


def f_sortstab(s):
    l = list(enumerate(s))
    l.sort(key=lambda x: x[1] == 'a')
    return l


def f_dictops(s):
    d = dict.fromkeys(s, 0)
    for c in s:
        d[c] += 1
    d.pop('a', None)
    e = {k: v for k, v in d.items() if v}
    e.update({'z': 1}, y=2)
    return list(e), d.get('-'), e.setdefault('-', 9), 'z' in e, \
        list(e.values()), sorted(e.items()), e.popitem(), len(e)


def f_dictdel(s):
    d = {'a': 1, '-': 2}
    try:
        del d[s[:1]]
    except KeyError:
        d['n'] = 0
    return d, d.keys() & {'a'}, bool(d), list(reversed(list(d)))


def f_dictmerge(s):
    return {'a': 1} | {s: 2}, {**{s: 1}, **{'a': 2}}


def f_dictview(s):
    d = {c: i for i, c in enumerate(s)}
    return d.keys() == {'a', '-'}, d.keys() - {'a'} == set(), \
        ('a', 0) in d.items(), 0 in d.values()


def f_defaultdict(s):
    d = collections.defaultdict(lambda: collections.defaultdict(int))
    for a, b in zip(s, s[1:]):
        d[a][b] += 1
    return {k: dict(v) for k, v in d.items()}


def f_defaultset(s):
    d = collections.defaultdict(set)
    for i, c in enumerate(s):
        d[c].add(i)
    return sorted((k, sorted(v)) for k, v in d.items()), 'q' in d, len(d)


def f_bytes1(s):
    b = s.encode('utf-8')
    return b[:1], b[0] if b else None, b + b'x', b * 2, b.upper(), \
        b.startswith(b'a'), b.endswith((b'-', b';')), b.strip(b'a'), \
        b.replace(b'-', b'+'), b.split(b'-'), b'-' in b, 97 in b, \
        b.decode('ascii'), str(b, 'utf-8'), b.count(b'a'), b.rfind(b'a')


def f_bytes2(s):
    b = bytearray(s.encode())
    b.append(98)
    b += b'zz'
    b.extend(s.encode())
    b[0] = 65
    del b[1:2]
    return bytes(b), len(b), b.find(b'z'), bytes(reversed(b))


def f_bytes3(s):
    b = s.encode()
    return [c for c in b], bytes([c for c in b if c != 97]), \
        bytes(b''.join(b[i:i + 1] for i in range(len(b)))), \
        b.splitlines(), b.rsplit(b'-', 1), b.isalpha(), b.ljust(4, b'.'), \
        b < b'a', b == s, sorted(b), max(b, default=0), repr(b), ascii(b)


def f_rxbytes(s):
    b = s.encode()
    m = re.match(rb'(a*)(-?)', b)
    return m.group(1), m.end(), re.sub(rb'[-;]', b'_', b), \
        re.split(b'-', b), bool(re.search(b';$', b))


def f_ascii(s):
    return ascii(s), ascii([s]), '%a' % s, f'{s!a}', '{!a}'.format(s)


def f_pctstar(s):
    return '%-*s|' % (5, s), '%.*s' % (1, s), '%%%s' % s, \
        '%(x)s %(y)d' % {'x': s, 'y': len(s)}, '%c' % (s or 'z')[0], \
        '%5d|%-5d|%05d|%+d|%x' % (len(s), 3, 4, 5, 255)


def f_fspec(s):
    w = 4 + s.count('a')
    return f'{s:{w}}|', f'{s:>{w}}', f'{len(s):>{w}}', f'{s[::-1]!r:.2}', \
        f"{'x' if s else 'y'}{{}}", '{:*^{w}}'.format(s, w=w), \
        '{:{}}|'.format(s, w)


def f_fattr(s):
    class C(object):
        def __init__(self):
            self.v = [s]

        def __format__(self, spec):
            return spec + s

        def __str__(self):
            return '<' + s + '>'
    c = C()
    return f'{c:q}{c!s}', '{0.v[0]}{0!s}'.format(c), str(c), '%s' % c, \
        '{:z}'.format(c)


def f_cmpops(s):
    class V(object):
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return self.v < o.v

        def __eq__(self, o):
            return self.v == o.v

        def __hash__(self):
            return 7

        def __len__(self):
            return len(self.v)

        def __contains__(self, x):
            return x in self.v

        def __getitem__(self, i):
            return V(self.v[i])

        def __iter__(self):
            return map(V, self.v)

        def __add__(self, o):
            return V(self.v + o.v)

        def __call__(self):
            return self.v

        def __neg__(self):
            return V(self.v[::-1])
    v = V(s)
    return [x.v for x in sorted(v)], v > V('a'), v != V('-'), bool(v), \
        'a' in v, v[1:]() if s else 0, (v + v)(), (-v)(), V('a') in [v], \
        {v: 1}.get(V('a')), [v].index(V(s)), max(v, V('a'))()


@functools.total_ordering
class T(object):
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return self.v == o.v

    def __lt__(self, o):
        return self.v < o.v


def f_total(s):
    return T(s) <= T('a'), T(s) > T('-'), T(s) >= T('a'), T(s) != T('a')


def f_prop(s):
    class C(object):
        def __init__(self):
            self._x = s

        @property
        def x(self):
            return self._x

        @x.setter
        def x(self, v):
            self._x = v.strip('a')

        @x.deleter
        def x(self):
            self._x = None
    c = C()
    a = c.x
    c.x = s
    b = c.x
    c.x += 'az'
    d = c.x
    del c.x
    return a, b, d, c.x


def f_genclose(s):
    out = []

    def g():
        try:
            for c in s:
                yield c
        finally:
            out.append('closed')
    it = g()
    for c in it:
        if c == '-':
            break
    it.close()
    return out


def f_gencls(s):
    class R(object):
        def __iter__(self):
            for c in s:
                yield 1, c

    class M(R):
        def __iter__(self):
            for n, c in super().__iter__():
                if c != 'a':
                    yield n + 1, c
    return list(M())


def f_genret(s):
    def g():
        for c in s:
            if c == '-':
                return 'dash'
            yield c
        return 'end'

    def h(out):
        r = yield from g()
        out.append(r)
    out = []
    return list(h(out)), out


def f_iterproto(s):
    class It(object):
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i >= len(s) or s[self.i] == ';':
                raise StopIteration
            self.i += 1
            return s[self.i - 1]
    it = It()
    return next(it, None), list(it), next(it, 'end')


def f_match_like(s):
    out = []
    for a, b in itertools.pairwise(s) if hasattr(itertools, 'pairwise') and \
            False else zip(s, s[1:]):
        out.append({('a', '-'): 1, ('-', 'a'): 2}.get((a, b), 0))
    return out


def f_chainlike(s):
    return list(itertools.chain(s, 'q')), \
        list(itertools.chain.from_iterable([s, 'z'])), \
        list(itertools.repeat(s, 2)), \
        list(itertools.islice(itertools.cycle(s or 'e'), 4)), \
        [''.join(p) for p in itertools.permutations(s, 2)]


def f_strmore(s):
    return s.find('a', 1), s.rfind('-'), s.rpartition('-'), s.count('a', 1), \
        s.index('a') if 'a' in s else -1, s.lstrip('a'), s.rstrip(';-'), \
        s.replace('a', '', 1), s.startswith(('a', '-')), s.endswith('a', 1), \
        s.upper().lower() == s, s.capitalize(), s.zfill(5), s.isspace(), \
        s.isdigit(), s.istitle(), s.encode().decode(), s.join('xy')


def f_casts(s):
    return list(s), tuple(s), set(s) == set(list(s)), str(s), \
        bytes(s, 'utf-8'), dict([(s, s)]), bool(s), int(bool(s)), \
        float(len(s)), list(map(ord, s)), list(enumerate(s)), \
        list(zip(s, range(5))), list(reversed(s)), list(range(len(s)))


def f_intparse(s):
    out = []
    for t in ('1' + s, s + '2', ' 7 ', '-3', '+4', '1_0'):
        try:
            out.append(int(t))
        except ValueError:
            out.append(None)
    return out


def f_path(s):
    return os.path.join('x', s), os.path.basename('q/' + s), \
        os.path.dirname(s + '/y'), os.path.splitext(s + '.c'), \
        os.path.split('a/' + s), os.path.isabs(s), os.path.join(s, '/z')


def f_global(s):
    global _g
    _g = s
    return _gget()


def _gget():
    return _g + 'g'


_g = ''


def f_default(s):
    def f(x, seen=[]):
        seen.append(x)
        return len(seen)
    return [f(c) for c in s]


def f_closure(s):
    fs = [lambda x, c=c: x + c for c in s]
    gs = [lambda: c for c in s]
    return [f('.') for f in fs], [g() for g in gs]


def f_exc(s):
    class E(Exception):
        def __init__(self, m, n=0):
            super().__init__(m)
            self.n = n
    out = []
    for c in s:
        try:
            if c == 'a':
                raise E(c, 4)
            elif c == '-':
                raise KeyError(c)
            out.append({}['x'])
        except E as e:
            out.append((str(e), e.n, e.args))
        except (KeyError, ValueError) as e:
            out.append(e.args)
        else:
            out.append('else')
        finally:
            out.append('f')
    return out


def f_with(s):
    class W(object):
        def __enter__(self):
            return s

        def __exit__(self, t, e, tb):
            return t is KeyError
    out = []
    with W() as w, W():
        out.append(w)
        if s[:1] == 'a':
            raise KeyError(s)
        out.append('done')
    return out


def f_assert(s):
    try:
        assert 'a' in s, 'no a in ' + s
    except AssertionError as e:
        return str(e)
    return None


def f_chain(s):
    n = len(s)
    return 0 < n < 3, 'a' <= s[:1] <= 'z', s[:1] == s[-1:] == 'a', \
        s in 'a-;a' in 'xa-;a', s is not None is not False


def f_ternary(s):
    return [('A' if c == 'a' else 'D' if c == '-' else c) for c in s
            if c != ';' or len(s) > 1], \
        [[x for x in c] for c in s.split('-')], \
        {i: c for i, c in enumerate(s)}, \
        list(x + y for x in s for y in s if x != y)


def f_typecheck(s):
    return isinstance(s, str), isinstance(s, (bytes, list)), \
        type(s) is str, type(s) == str, type(s).__name__, callable(s), \
        isinstance(s.encode(), bytes), isinstance(len(s), int), \
        issubclass(type(s), str), s.__class__ is str, \
        hasattr(s, 'strip'), type(s == 'a') is bool, type('a' in s) is bool


def f_strsub(s):
    class S(str):
        def shout(self):
            return self.upper() + '!'
    x = S(s)
    return x.shout(), x + 'q', x == s, len(x), isinstance(x, str)


def f_listsub(s):
    class L(list):
        def __contains__(self, x):
            return list.__contains__(self, x) or x == 'q'
    l = L(s)
    l.append('z')
    return 'q' in l, 'a' in l, l[:2], len(l), l == list(s) + ['z']


def f_sentinel(s):
    no = object()
    d = {'a': None}
    return [d.get(c, no) is no for c in s]


def f_seqcmp(s):
    l = list(s)
    return l < ['a', '-'], l == sorted(l), tuple(l) >= ('-',), \
        [s, 1] != ['a', 1], (s, None) == ('a', None), l == l[::-1]


def f_multiassign(s):
    a = b = s
    a, b = b + '1', a
    x, y = y, x = (a, b)
    i, *_ = (s or 'e')
    return a, b, x, y, i


def f_strmul(s):
    return s * 2, 2 * s, s * 0, [s] * 2, (s,) * 2, '-' * len(s), s * s.count('a')


def f_rxmisc(s):
    p = re.compile('([a-z])|(-)')
    return [m.groups() for m in p.finditer(s)], p.split(s), \
        p.subn('x', s), p.sub(r'[\g<0>]', s, count=1), p.fullmatch(s) and 1, \
        p.findall(s), p.pattern, bool(p.search(s, 1)), \
        re.sub(r'(?i)A', 'b', s), re.match('a(?!-)', s) is None, \
        re.search('(?<=a)-', s) is None


def f_rxcond(s):
    return [bool(re.match(p, s)) for p in (
        '^a$', '^a?-*$', '[^a]', 'a{2}', 'a{1,2}-', '(a|-)+$', r'\w', r'\W',
        '.$', '$', '^', '(?:a-)*;?$', '(?=.*;)', r'a+?-', '.*?;', r'\Z',
        '[-a]+', r'[\w;]*$')]


def f_stringmod(s):
    return [c in string.ascii_letters for c in s], \
        [c in string.punctuation for c in s], string.capwords(s, '-')


def f_copy(s):
    l = [[s], {'k': [s]}]
    a = copy.copy(l)
    b = copy.deepcopy(l)
    l[0].append('x')
    return a, b


def f_env(s):
    d = dict(os.environ)
    d['ZZ'] = s
    return d['ZZ'], os.environ.get('NO_SUCH_VAR', s), sys.maxsize > 0



def f_bounddunder(s):
    return [list(filter(f, s)) for f in (
        'a;'.__contains__, ['a'].__contains__, ('-',).__contains__,
        {'a', '-'}.__contains__, {'a': 1}.__contains__, 'a'.__eq__,
        frozenset('-').__contains__, 'a'.__ne__, {'a': 1}.get,
        'a'.__lt__, 'b'.__add__)], list(map({'a': 1}.get, s)), \
        list(itertools.filterfalse('a'.__contains__, s)), \
        sorted(s, key='-a;'.index), list(map('x'.join, [s, s])), \
        list(map(s.count, s)), list(map(s.__contains__, 'a-')), \
        list(itertools.takewhile('a-'.__contains__, s)), \
        any(map('-'.__eq__, s)), list(map(str.__add__, s, s))


FS = [f for n, f in sorted(list(globals().items())) if n.startswith('f_')]


def run(ctx, i, n):
    s = ctx.str('s', n, 'a-;')
    try:
        r = FS[i](s)
    except (IndexError, KeyError) as e:
        r = type(e).__name__
    ctx.observe('r', r)
    ctx.check(True, 'ok')


def jobs(tier):
    return [('%s.%d' % (f.__name__, n), run, {'i': i, 'n': n})
            for i, f in enumerate(FS) for n in (0, 1, 3)]
