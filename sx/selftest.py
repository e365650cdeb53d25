"""Differential self-test of the engine's models of str, bytes and re on
fully decided values (their behaviour on undecided ones is checked in every
run by replaying sampled paths on the unmodified code)."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import rx, engine as en  # noqa
from sx.values import SymStr  # noqa
from sx.models import SymByteArray  # noqa


class FakePath(object):
    def tick(self):
        pass


PATS = [r'^(\s*)\[([^]]*)\]\s*\(([^)\+]+)\)$', r'^([^=]*?)(\s*=>\s*)(.*)$',
        r'^\s*$', r'a*b|c', r'(a|b)*?c$', r'(?i)ab+', r'(x)(?=a)',
        r'(?<!\\)"', r'\bfoo\b', r'(a)|(b)', r'[^,]*,?', r'\$\{[^}]*\}',
        r'(a*)*b', r'(?:ab){2,3}', r'^a|b$', r'\d+', r'(.)\1', r'.*?=',
        r'(a?)(b?)c?$', r'(\[.[^]]*\]|[^-])', r'(\[.[^]]*\]|[^][-]+)']
AL = 'ab=> []()\\"x,${}1\nfoc-'
METHODS = [('strip', ()), ('lstrip', ()), ('rstrip', ()), ('upper', ()),
           ('lower', ()), ('split', (',',)), ('split', (',', 1)),
           ('rsplit', (',', 1)), ('partition', ('=',)),
           ('rpartition', ('=',)), ('split', ()), ('isdigit', ()),
           ('isalpha', ()), ('isspace', ()), ('isalnum', ()),
           ('startswith', ('a',)), ('endswith', (('b', '>'),)),
           ('find', ('=',)), ('rfind', ('a',)), ('count', ('a',)),
           ('replace', ('a', 'bb')), ('replace', ('-', '')),
           ('lstrip', (' a',)), ('zfill', (4,)), ('splitlines', ()),
           ('capitalize', ())]
BYTEARRAY = [('append', (98,)), ('extend', (b'a,b',)), ('insert', (1, 44)),
             ('pop', ()), ('pop', (0,)), ('remove', (44,)), ('reverse', ()),
             ('__delitem__', (0,)), ('__delitem__', (slice(1, 3),)),
             ('__setitem__', (0, 99)), ('__setitem__', (slice(0, 1), b'xy')),
             ('__getitem__', (-1,)), ('__getitem__', (slice(1, None),)),
             ('__iadd__', (b'zz',)), ('__add__', (b'q',)), ('find', (b'b',)),
             ('split', (b',',)), ('partition', (b',',)), ('upper', ()),
             ('startswith', (b'a',)), ('__contains__', (98,)),
             ('__contains__', (b'a,',)), ('clear', ()), ('__len__', ()),
             ('strip', (b'a',)), ('replace', (b'a', b'cc')), ('count', (98,)),
             ('__eq__', (b'a,b',)), ('append', (300,)), ('copy', ())]


def text(x):
    if type(x) is SymStr:
        return ''.join(map(chr, x._c))
    if isinstance(x, (list, tuple)):
        return type(x)(text(i) for i in x)
    if x is None or isinstance(x, (str, int)):
        return x
    return bool(x)


def main():
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    bad = n = 0
    for p in PATS:
        r = re.compile(p)
        sp = rx.SymPattern(p, r.flags)
        for _ in range(300):
            s = ''.join(rnd.choice(AL) for _ in range(rnd.randint(0, 8)))
            sym = SymStr(tuple(map(ord, s)))
            en.PATH = FakePath()
            for mode in ('match', 'search', 'fullmatch'):
                a, b = getattr(r, mode)(s), getattr(sp, mode)(sym)
                a = a and (a.span(), a.groups())
                b = b and (b.span(), text(b.groups()))
                n += 1
                if a != b:
                    bad += 1
                    print('selftest: re', p, repr(s), mode, a, b)
            if r.findall(s) != text(sp.findall(sym)):
                bad += 1
                print('selftest: findall', p, repr(s))
    for name, args in METHODS:
        if not hasattr(SymStr, name):
            continue
        for _ in range(300):
            s = ''.join(rnd.choice(AL) for _ in range(rnd.randint(0, 7)))
            sym = SymStr(tuple(map(ord, s)))
            en.PATH = FakePath()
            try:
                got = text(getattr(sym, name)(*args))
            except Exception as e:
                got = repr(e)
            n += 1
            if got != getattr(s, name)(*args):
                bad += 1
                print('selftest:', name, args, repr(s), got)
    for _ in range(1500):
        a, b = bytearray(), SymByteArray()
        for _ in range(rnd.randint(1, 7)):
            name, args = rnd.choice(BYTEARRAY)
            got = []
            for o in (a, b):
                try:
                    r = getattr(o, name)(*args)
                    if name == '__iadd__':
                        r = None
                    if isinstance(r, bytearray):
                        r = bytes(r)
                    elif isinstance(r, (list, tuple)):
                        r = [bytes(i) for i in r]
                except (ValueError, IndexError) as e:
                    r = type(e)
                got.append(r)
            n += 1
            if got[0] != got[1] or bytes(a) != bytes(b):
                bad += 1
                print('selftest: bytearray', name, args, got, a, b)
    print('selftest: %d comparisons, %d wrong' % (n, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
