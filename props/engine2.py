"""The engine against CPython and PyPy: what it makes of all kinds of
Python has to be what they do (./check engine2; not a property)."""
import abc, codecs, collections, collections.abc, contextlib, copy, functools, html
import io, itertools, json, operator, os, os.path, pathlib, re, shlex, string, sys
import textwrap, types, typing, unicodedata, warnings, enum, weakref, traceback
import logging
import urllib.parse
from collections import namedtuple, UserDict, UserList, UserString
BOUNDS = {'quick': 'x', 'thorough': 'x'}
OUTSIDE = 'x'
COVERS = ()

P = namedtuple('P', 'a b', defaults=['x'])


class Base(abc.ABC):
    registry = {}

    def __init_subclass__(cls, key=None, **kw):
        super().__init_subclass__(**kw)
        cls.registry[key] = cls

    @abc.abstractmethod
    def go(self, s):
        """x"""

    @property
    @abc.abstractmethod
    def name(self):
        """x"""


class One(Base, key='a'):
    name = 'one'

    def go(self, s):
        return s + 'one'


class Two(Base, key='-'):
    name = 'two'

    def go(self, s):
        return super().__class__.__name__ + s


class Meta(type):
    def __call__(cls, *a, **kw):
        o = super().__call__(*a, **kw)
        o.made = True
        return o


class Made(metaclass=Meta):
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Made) and o.s == self.s

    def __lt__(self, o):
        return self.s < o.s

    def __hash__(self):
        return hash(self.s)

    def __len__(self):
        return len(self.s)

    def __iter__(self):
        return iter(self.s)

    def __contains__(self, c):
        return c in self.s

    def __getitem__(self, k):
        return self.s[k]

    def __repr__(self):
        return '<%s>' % (self.s,)

    def __str__(self):
        return 'M' + self.s

    def __bool__(self):
        return self.s != 'a'

    def __call__(self, x):
        return self.s + x

    def __format__(self, spec):
        return spec + self.s

    def __enter__(self):
        return self.s

    def __exit__(self, *a):
        return True


@functools.total_ordering
class TO(object):
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return self.s == o.s

    def __lt__(self, o):
        return self.s < o.s


def f_registry(s):
    k = Base.registry.get(s[:1])
    return k and k().go(s), k and k.name


def f_made(s):
    m = Made(s)
    with m as t:
        if 'a' in m:
            raise ValueError
        t += 'x'
    return m.made, m == Made('a-'), sorted([m, Made('a')])[0].s, len(m), \
        list(m), '-' in m, m[:1], repr(m), str(m), bool(m), m('x'), \
        '{:>3}'.format(m), f'{m}', '%s %r' % (m, m), len({m, Made('a')}), t


def f_to(s):
    a, b = TO(s), TO('a')
    return a >= b, a <= b, a > b, max(a, b).s


def f_named(s):
    p = P(s)
    return p.a, p.b, p[0], p._replace(b=s) == P('a', 'a'), dict(p._asdict()), \
        P._make([s, 1]).a, repr(p), P(*s[:2]) if len(s) > 1 else None


def f_userdict(s):
    class D(UserDict):
        def __missing__(self, k):
            return 'none'
    d = D({'a': 1})
    d['b'] = s
    return d['b'], d['q'], 'a' in d


def f_userlist(s):
    u = UserList(s)
    u.append('q')
    return list(u), 'a' in u, len(u)


def f_dictsub(s):
    class D(dict):
        def __setitem__(self, k, v):
            super().__setitem__(k, v + '!')
    d = D()
    for c in s:
        d[c] = c
    return list(d.items()), 'a' in d, d.get('a'), d.pop('-', None), len(d)


def f_listsub(s):
    class L(list):
        def append(self, x):
            super().append(x + '!')
    l = L()
    for c in s:
        l.append(c)
    return l == ['a!'], l, 'a!' in l


def f_types(s):
    return type(s) is str, type(s) == str, isinstance(s, (str, bytes)), \
        s.__class__ is str, type(s).__name__, callable(s), \
        isinstance(s, collections.abc.Iterable), isinstance(s, typing.Hashable), \
        isinstance(s, collections.abc.Sequence), issubclass(type(s), str)


def f_dicts(s):
    d = dict.fromkeys(s, 0)
    e = {**d, 'x': 1}
    e |= {'a': 5}
    f = d | {'-': 3}
    return sorted(e.items()), sorted(f), d.keys() & {'a'}, \
        sorted(d.keys() - {'-'}), {v: k for k, v in e.items()}, \
        list(reversed(list(d))), d.keys() == {'a'}


def f_sets(s):
    x = set(s)
    y = x ^ {'a'}
    x |= {'q'}
    x -= {'-'}
    return sorted(y), sorted(x), len(x), {'a'} <= x, x > {'q'}


def f_json(s):
    return json.dumps({'a': [s]}), json.dumps(s)


def f_paths(s):
    return os.path.join('d', s), os.path.splitext('x.' + s), \
        os.path.basename('d/' + s), os.path.dirname(s + '/x'), \
        os.path.normpath('a/../' + s) if s else 0, os.path.isabs(s), \
        os.path.split(s)


def f_pathlib(s):
    p = pathlib.PurePosixPath('d') / (s + 'x')
    return str(p), p.name, str(p.parent), p.suffix, p.stem


def f_shlex(s):
    return shlex.split(s + ' b'), shlex.quote(s)


def f_wrap(s):
    return textwrap.wrap('aaa ' + s, 4), textwrap.shorten('aaa ' + s, 5)


def f_const(s):
    return [c in string.ascii_letters for c in s], \
        [c in string.punctuation for c in s], \
        s.strip(string.ascii_letters), set(s) <= set(string.ascii_lowercase)


def f_uni(s):
    return [unicodedata.category(c) for c in s], unicodedata.normalize('NFC', s)


def f_bytesre(s):
    b = s.encode()
    return re.sub(b'a+', b'z', b), re.findall(b'[-;]', b), \
        [m.span() for m in re.finditer(br'(?=a)', b)], \
        bool(re.match(br'\A-', b)), re.split(br'-', b)


def f_bytesm(s):
    b = s.encode()
    return b.strip(b'a'), b.startswith((b'a', b';')), b.rstrip(), \
        b.upper(), b.count(b'-'), b.rfind(b'a'), b.join([b'1', b'2']), \
        b.decode('ascii', 'replace'), b[::-1], b * 2, b + b'x', \
        bytes(reversed(b)), bytes([c ^ 1 for c in b]), b.isalpha(), \
        b.replace(b'a', b'bb'), b.splitlines(), b.zfill(5), b.ljust(4, b'.'), \
        b[0:1] in b'a-', 97 in b, max(b, default=0), sorted(b), b.hex()


def f_lines(s):
    t = s.replace(';', '\n')
    return list(io.StringIO(t)), [l.rstrip('\n') for l in io.StringIO(t)], \
        t.splitlines(), list(io.BytesIO(t.encode()))


def f_stream(s):
    f = io.BytesIO(s.replace(';', '\n').encode())
    out = []
    while True:
        line = f.readline()
        if not line:
            break
        out.append(line)
    f.seek(0)
    return out, f.read(1), f.tell(), f.readlines()


def f_exc(s):
    class E(ValueError):
        def __init__(self, what, *a):
            super().__init__(what, *a)
            self.what = what

        def __str__(self):
            return 'E:' + self.what
    try:
        raise E(s, 1)
    except (KeyError, E) as e:
        return str(e), e.what, e.args, isinstance(e, ValueError)


def f_exc2(s):
    out = []
    for c in s:
        try:
            if c == 'a':
                continue
            if c == ';':
                break
            out.append(c)
        except ValueError:
            pass
        finally:
            out.append('f')
    return out


def f_exitstack(s):
    out = []
    with contextlib.ExitStack() as st:
        for c in s:
            st.callback(out.append, c)
    return out


def f_redirect(s):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        print(s, 'x', sep='-')
    return o.getvalue()


def f_closing(s):
    class C(object):
        closed = 0

        def close(self):
            self.closed += 1
    c = C()
    with contextlib.closing(c):
        pass
    with contextlib.nullcontext(s) as t:
        return c.closed, t


def f_flag(s):
    class F(enum.IntFlag):
        A = 1
        B = 2
    f = F(0)
    for c in s:
        f |= F.A if c == 'a' else F.B
    return int(f), bool(f & F.A), F.B in f


def f_wraps(s):
    def deco(f):
        @functools.wraps(f)
        def g(*a, **kw):
            return f(*a, **kw) + '!'
        return g

    @deco
    def h(x, *, y='q'):
        return x + y
    return h(s), h(s, y=s), h.__name__


def f_simple(s):
    n = types.SimpleNamespace(a=s)
    n.b = 1
    return n.a, n == types.SimpleNamespace(a='a', b=1), vars(n)['a']


def f_typeof(s):
    T = type('T', (object,), {'v': s, 'm': lambda self: self.v + 'x'})
    return T().m(), T.__name__


def f_partialmethod(s):
    class C(object):
        def m(self, a, b):
            return a + b
        n = functools.partialmethod(m, 'z')
    return C().n(s)


def f_compare(s):
    return (s > 'a') - (s < 'a'), [s, 'a'] < ['a', s], (len(s), s) > (1, 'a')


def f_slicing(s):
    l = list(s)
    l[1:1] = ['x', 'y']
    l[:0] = 'q'
    a, *b, c = l
    return l, a, b, c, l[-2:], l[::2], l[slice(1, None)], [*s, 'x'], (*s,)


def f_nested(s):
    return [[c + d for d in s if d != c] for c in s if c], \
        {c: [i for i, d in enumerate(s) if d == c] for c in s}


def f_lambda(s):
    return (lambda x, *a, k=s, **kw: (x, a, k, kw))(s, 1, z=2)


def f_dispatch(s):
    t = {'a': lambda: 1, '-': lambda: 2}
    return t.get(s[-1:], lambda: s)()


def f_gl(s):
    global _G
    _G = s
    return globals()['_G']


def f_sysout(s):
    sys.stderr.write(s + '\n')
    sys.stderr.writelines([s, '\n'])
    print(s, file=sys.stderr, end='|')
    return 1


def f_ranges(s):
    return [s[i:i + 2] for i in range(0, len(s), 2)], \
        [s[i] for i in range(len(s) - 1, -1, -1)], \
        [i for i in range(len(s)) if s.startswith('a', i)], \
        s.find('-', 1), s.endswith('a', 0, 2), s.index('a', 0) if 'a' in s else 0


def f_ord(s):
    return [ord('a') <= ord(c) <= ord('z') for c in s], \
        ['a' <= c <= 'z' for c in s], [c.isalpha() or c == '-' for c in s], \
        [c in 'a-' and c != '-' for c in s], sum(ord(c) << i for i, c in enumerate(s))


def f_num(s):
    n = 0
    for c in s:
        n = n * 10 + {'a': 1, '-': 2}.get(c, 0)
    return n, str(n), '%03d' % n, '{:,}'.format(n), n % 7, divmod(n, 3), \
        n > 5, -n, int(str(n)), float(n) / 2, hex(n), bin(n), n.to_bytes(2, 'big')


def f_strmul(s):
    return s * 2, 2 * s, s * 0, s + s, 'a' * len(s), [s] * 2


def f_unpack(s):
    try:
        a, b = s.split('-')
        return a, b
    except ValueError:
        return 'no'


def f_assert(s):
    try:
        assert s == 'a', s
        return 1
    except AssertionError as e:
        return str(e)


def f_warn(s):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        warnings.warn('w')
    return len(w), s


def f_copy(s):
    l = [s, [s]]
    m = copy.deepcopy(l)
    n = copy.copy(l)
    m[1].append('x')
    n.append('y')
    return l, m, n


def f_iters(s):
    i = iter(s)
    a = next(i, None)
    return a, list(i), next(iter(()), s), list(zip(s, range(3), 'abc')), \
        list(map(lambda x, y: x + y, s, s)), list(enumerate(s, 1)), \
        list(filter(None, s.split('-'))), \
        list(itertools.chain(s, [1])), list(itertools.repeat(s, 2)), \
        list(itertools.islice(itertools.cycle(s), 4)) if s else 0, \
        list(itertools.permutations(s, 2)), list(range(len(s))[::-1])


def f_rx2(s):
    return re.match('(a)?(-)?', s).groups(''), re.sub('(?i)A', '', s), \
        re.sub('a', r'\\', s), re.subn('[a;]', '*', s), \
        re.sub('(?P<x>a)', r'<\g<x>\g<0>>', s), re.fullmatch('[a-]*', s) is None, \
        re.compile('a').sub('b', s, 1), re.compile('-').search(s, 1) is None, \
        re.escape(s), [m.group(0) for m in re.compile('.').finditer(s)], \
        re.match('a{1,2}?', s) and 1, re.search(r'\W$', s) and 2, \
        re.search('(?<=a)-', s) and 3, re.match('(?:a|-(?!;))+', s) and 4


def f_rxexpand(s):
    m = re.match('(.)(.)', s)
    return m and m.expand(r'\2\1')


def f_logging(s):
    o = io.StringIO()
    h = logging.StreamHandler(o)
    lg = logging.Logger('x')
    lg.addHandler(h)
    lg.warning('%s!', s)
    return o.getvalue()


FS = [f for n, f in sorted(list(globals().items())) if n.startswith('f_')]


def run(ctx, i, n):
    s = ctx.str('s', n, 'a-;')
    try:
        r = FS[i](s)
    except (IndexError, KeyError) as e:
        r = type(e).__name__
    ctx.observe('r', r)
    ctx.check(True, 'ok')


def jobs(tier):
    return [('%s.%d' % (f.__name__, n), run, {'i': i, 'n': n})
            for i, f in enumerate(FS) for n in (0, 1, 3)]
