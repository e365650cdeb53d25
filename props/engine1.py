"""The engine against CPython and PyPy: what it makes of all kinds of
Python has to be what they do (./check engine1; not a property)."""
import array, bisect, collections, contextlib, copy, functools, heapq, io
import itertools, operator, re, string, textwrap, struct
from dataclasses import dataclass, field
from enum import Enum
from typing import NamedTuple
BOUNDS = {'quick': 'x', 'thorough': 'x'}
OUTSIDE = 'x'
COVERS = ()


class NT(NamedTuple):
    a: str
    b: int


@dataclass(frozen=True, order=True)
class DC:
    a: str
    b: int = 0
    c: list = field(default_factory=list, compare=False)


class Kind(Enum):
    A = 'a'
    B = 'b'


def f_deque(s):
    q = collections.deque(s)
    q.rotate(1)
    out = []
    while q:
        c = q.popleft()
        if c == 'a':
            q.append('b')
        else:
            out.append(c)
    return ''.join(out)


def f_deque_max(s):
    q = collections.deque(maxlen=2)
    for c in s:
        q.append(c)
    return ''.join(q), 'a' in q, len(q), q and q[-1] == 'a'


def f_translate(s):
    return s.translate(str.maketrans('a;', 'bc', '-'))


def f_translate_dict(s):
    return s.translate({ord('a'): 'xyz', ord('-'): None})


def f_nt(s):
    n = NT(s, len(s))
    m = n._replace(a=n.a + 'x')
    a, b = m
    return a, b, n == NT(s, len(s)), n._asdict()['a']


def f_dc(s):
    d = DC(s, 2)
    return d == DC('a-', 2), d < DC('b', 1), d.a


def f_enum(s):
    try:
        return Kind(s[:1]).name
    except ValueError:
        return 'none'


def f_itemgetter(s):
    g = operator.itemgetter(0, -1)
    return g(s) if s else None


def f_attrgetter(s):
    l = [DC(c, i) for i, c in enumerate(s)]
    return [d.b for d in sorted(l, key=operator.attrgetter('a'))]


def f_methodcaller(s):
    return operator.methodcaller('partition', '-')(s)


@functools.lru_cache(maxsize=None)
def _cached(s, n):
    return s[n:]


def f_lru(s):
    return _cached(s, 1), _cached(s, n=1)


@functools.singledispatch
def _kind(x):
    return 'object'


@_kind.register(str)
def _(x):
    return 'str' + x


@_kind.register(int)
def _(x):
    return 'int'


def f_dispatch(s):
    return _kind(s), _kind(len(s)), _kind(None)


def f_suppress(s):
    i = -1
    with contextlib.suppress(ValueError):
        i = s.index('-')
    return i


@contextlib.contextmanager
def _cm(out):
    out.append('in')
    try:
        yield out
    finally:
        out.append('out')


def f_cm(s):
    out = []
    with _cm(out) as o:
        o.append(s)
    return out


def f_iter_sentinel(s):
    it = iter(s)
    return list(iter(lambda: next(it, '-'), '-'))


def f_zip_longest(s):
    return list(itertools.zip_longest(s, s[1:], fillvalue='.'))


def f_islice(s):
    return ''.join(itertools.islice(s, 1, None))


def f_count(s):
    return [(i, c) for i, c in zip(itertools.count(1), s) if c == 'a']


def f_starred(s):
    a, *b = s.split('-')
    return a, b


def f_compress(s):
    return ''.join(itertools.compress(s, [c != 'a' for c in s]))


def f_template(s):
    return string.Template('x${a}y').substitute(a=s)


def f_fstring(s):
    return f'{s!r:>6}|{len(s):03d}|{s:<5}|{s:^7}|{s!s}'


def f_pct(s):
    return '%s|%-5s|%5s|%r|%.2s|%(a)s' % {'a': s} if False else \
        '%s|%-5s|%5s|%r|%.2s' % (s, s, s, s, s)


def f_format(s):
    return '{0}{0!r}{a:>4}{b[0]}'.format(s, a=s, b=[s])


def f_format_map(s):
    return '{a}-{b}'.format_map({'a': s, 'b': 1})


def f_chainmap(s):
    m = collections.ChainMap({'a': 1}, {'b': 2, 'a': 3})
    return m.get(s[:1]), s[:1] in m


def f_dict_get(s):
    return [{'a': 1, '-': 2}.get(c, 0) for c in s]


def f_dict_order(s):
    d = {}
    for i, c in enumerate(s):
        d.setdefault(c, []).append(i)
    return list(d.items())


def f_setcomp(s):
    x = {c for c in s if c != ';'}
    return sorted(x), len(x), x <= {'a', '-'}


def f_walrus(s):
    if (m := re.match(r'(?P<x>a*)(?P<y>-?)', s)) and m['y']:
        return m.groupdict()
    return m.end('x')


def f_rxsub(s):
    return re.sub(r'(a)(-)', r'\2\1', s), re.sub('a', lambda m: m[0] + 'q', s)


def f_rxgroup(s):
    m = re.search(r'-(?=a)|;$', s)
    return m and (m.start(), m.end(), m.span(), s[m.end():], m.string)


def f_rxverbose(s):
    return bool(re.compile(r'''
        ^ [^-]*   # head
        - $       # tail
        ''', re.X).match(s))


def f_rxscan(s):
    return [(m.lastgroup, m.group()) for m in re.finditer(
        r'(?P<w>a+)|(?P<d>-)|(?P<o>.)', s, re.S)]


def f_bisect(s):
    l = sorted(s)
    return bisect.bisect_left(l, 'a'), bisect.bisect(l, '-')


def f_heapq(s):
    h = list(s)
    heapq.heapify(h)
    return [heapq.heappop(h) for _ in range(len(h))]


def f_nonlocal(s):
    depth = 0

    def step(c):
        nonlocal depth
        if c == 'a':
            depth += 1
        elif c == '-' and depth:
            depth -= 1
        return depth
    return [step(c) for c in s]


def f_rec(s):
    if not s:
        return ''
    return f_rec(s[1:]) + s[0]


def f_gen(s):
    def g():
        last = None
        for c in s:
            if last is not None and last == c:
                continue
            last = c
            yield c
    return ''.join(g())


def f_gensend(s):
    def g():
        n = 0
        while True:
            c = yield n
            if c == 'a':
                n += 1
    x = g()
    next(x)
    return [x.send(c) for c in s]


def f_yieldfrom(s):
    def g(t):
        yield from t
        yield from reversed(t)
    return ''.join(g(s))


def f_stringio(s):
    o = io.StringIO()
    for c in s:
        o.write(c)
    print(s, end='', file=o)
    return o.getvalue()


def f_rev(s):
    return s[::-1], ''.join(reversed(s)), s[::2]


def f_minmax(s):
    return max(s, default=''), min(s, key=lambda c: -ord(c), default='')


def f_sum(s):
    return sum(1 for c in s if c == 'a'), sum(map(ord, s))


def f_anyall(s):
    return any(c in 'a;' for c in s), all(map(str.isalpha, s))


def f_chars(s):
    return s.isalnum(), s.isidentifier(), s.title(), s.swapcase(), \
        s.casefold(), s.isprintable(), s.isascii()


def f_expand(s):
    return s.expandtabs(4), s.center(6, '*'), s.ljust(5), s.rjust(5, '.')


def f_prefix(s):
    return s.removeprefix('a'), s.removesuffix('-')


def f_tuplecmp(s):
    return (s, 1) < ('a-', 2), [s] == ['a'], (s,) in [('a',), ('-',)]


def f_bytes(s):
    b = s.encode('ascii')
    return b[:1] == b'a', b.find(b'-'), b.hex() if False else list(b), \
        b.partition(b'-'), b.translate(None, b'a')


def f_struct(s):
    b = s.encode()
    return list(memoryview(b)), int.from_bytes(b, 'big')


def f_array(s):
    a = array.array('i')
    for c in s:
        a.append(ord(c) & 1)
    return list(a)


def f_lists(s):
    l = list(s)
    l.sort(reverse=True)
    l.insert(0, 'q')
    del l[1:2]
    return l, l.index('q'), l.count('a'), l[-1:] * 2


def f_try(s):
    try:
        n = int(s)
    except ValueError as e:
        return 'bad', str(e)
    else:
        return n
    finally:
        s = None


def f_raise(s):
    try:
        try:
            raise KeyError(s)
        except KeyError as e:
            raise ValueError('x' + e.args[0]) from e
    except ValueError as e:
        return str(e), repr(e.__cause__)


def f_counter(s):
    c = collections.Counter(s)
    return c['a'], c.most_common(1)[0][1] if s else 0, dict(c - collections.Counter('a'))


def f_ordered(s):
    d = collections.OrderedDict((c, i) for i, c in enumerate(s))
    d.move_to_end('a') if 'a' in d else None
    return list(d)


def f_userdict(s):
    class D(dict):
        def __missing__(self, k):
            return k + '!'
    d = D(a=1)
    return d[s[:1]]


def f_slots(s):
    class P(object):
        __slots__ = ('x',)

        def __init__(self, x):
            self.x = x

        def __eq__(self, o):
            return self.x == o.x

        def __hash__(self):
            return hash(self.x)
    return P(s) == P('a'), len({P(c) for c in s})


def f_descr(s):
    class C(object):
        def __init__(self):
            self.v = s

        @functools.cached_property
        def up(self):
            return self.v.upper()

        @staticmethod
        def st(x):
            return x + x

        @classmethod
        def cl(cls, x):
            return cls.st(x)
    return C().up, C.cl(s)


def f_getattr(s):
    class C(object):
        def on_a(self):
            return 'A'

        def __getattr__(self, n):
            if n.startswith('on_'):
                return lambda: n
            raise AttributeError(n)
    return getattr(C(), 'on_' + s[:1])()


def f_str_ctor(s):
    return str(s), ''.join([str(c) for c in s]), str(len(s)) + s, bool(s)


def f_splits(s):
    return s.split('-', 1), s.rsplit('-', 1), s.split(), s.splitlines(True)


def f_accumulate(s):
    return list(itertools.accumulate(s)), list(itertools.accumulate(
        [1 if c == 'a' else -1 for c in s], max))


def f_groupby(s):
    return [(k, len(list(g))) for k, g in itertools.groupby(
        s, key=lambda c: c == 'a')]


def f_takewhile(s):
    return ''.join(itertools.takewhile(lambda c: c == 'a', s)), \
        ''.join(itertools.dropwhile(str.isalpha, s)), \
        ''.join(itertools.filterfalse(str.isalpha, s))


def f_pairs(s):
    return list(itertools.product(s, '-')), \
        list(itertools.combinations(s, 2)), list(itertools.starmap(
            operator.add, zip(s, s)))


def f_tee(s):
    a, b = itertools.tee(s)
    next(b, None)
    return [x == y for x, y in zip(a, b)]


def f_wrap(s):
    return textwrap.dedent(s), textwrap.indent(s, '  ')


def f_vars(s):
    class C(object):
        pass
    c = C()
    c.a = s
    setattr(c, 'b', s + 'x')
    return sorted(vars(c).items()), hasattr(c, 'zz'), copy.copy(c).a, \
        copy.deepcopy([s])


def f_op(s):
    return operator.eq(s, 'a'), operator.contains(s, '-'), \
        operator.add(s, 'b'), operator.not_(s), operator.length_hint(s), \
        operator.is_(s, s), operator.lt(s, 'b'), operator.concat(s, s), \
        operator.indexOf(s + '-', '-'), operator.countOf(s, 'a')


def f_frozen(s):
    return frozenset(s) & frozenset('a;') == frozenset('a'), \
        frozenset(s).isdisjoint('-')


def f_in_tuple(s):
    return s in ('a', '-', 'aa'), s in {'a': 1}, s in ['-a'], \
        s in {'a-', ';'}, s[:1] in 'a;'


def f_cond(s):
    return 1 if 'a' < s <= 'b' else 2 if s == '-' or not s else 3


def f_while(s):
    i = n = 0
    while True:
        i = s.find('a', i)
        if i < 0:
            break
        i += 1
        n += 1
    else:
        n = -1
    return n


def f_for_else(s):
    for i, c in enumerate(s, 5):
        if c == '-':
            break
    else:
        i = -1
    return i


def f_zipdict(s):
    return dict(zip(s, range(9))), list(zip(*[iter(s)] * 2))


def f_strcmp(s):
    return sorted([s, 'a', '-;']), max(s, 'a'), s != 'a', not s == '-'


def f_hexoct(s):
    return [hex(ord(c)) for c in s], [oct(ord(c)) for c in s], \
        [chr(ord(c) + 1) for c in s], ['%02x' % ord(c) for c in s], \
        [format(ord(c), '02x') for c in s]


def f_ascii(s):
    return ascii(s), repr(s)


def f_bytesfmt(s):
    return b'%s|' % s.encode(), b','.join([s.encode()] * 2)


def f_exec(s):
    return eval('s + "x"', {'s': s})


def f_strjoin(s):
    return '-'.join(s), ''.join(sorted(set(s))), ''.join(dict.fromkeys(s))


def f_reduce(s):
    return functools.reduce(lambda a, c: a * 2 + (c == 'a'), s, 0), \
        functools.partial(str.replace, s, 'a')('b')


def f_cmp_key(s):
    return sorted(s, key=functools.cmp_to_key(
        lambda a, b: (a > b) - (a < b)))


def f_ints(s):
    n = len([c for c in s if c == 'a'])
    return divmod(n, 2), n.bit_length(), abs(-n), pow(n, 2), round(n), \
        n ** 2, n // 2, -n % 3, ~n, n << 1, float(n)


def f_find_all(s):
    return [m.start() for m in re.finditer('-', s)], re.split('[-;]', s), \
        re.split('([-;])', s, 1), re.findall('a|-(;)?', s)


FS = [f for n, f in sorted(list(globals().items())) if n.startswith('f_')]


class Sub(str):
    pass


def run(ctx, i, n):
    s = ctx.str('s', n, 'a-;')
    try:
        r = FS[i](s)
    except (IndexError, KeyError) as e:
        r = type(e).__name__
    ctx.observe('r', r)
    ctx.check(True, 'ok')


def jobs(tier):
    return [('%s.%d' % (f.__name__, n), run, {'i': i, 'n': n})
            for i, f in enumerate(FS) for n in (0, 1, 3)]
