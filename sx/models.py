"""Hooks that instrumented code calls, and models of builtins for symbolic
arguments."""
import builtins
import collections
import functools
import heapq
import io
import json
import importlib
import itertools
import operator
import os
import re
import string
import sys
import types

from . import terms as tm
from . import engine as en
from . import rx
from . import values as _values
from .terms import iv_from
from .values import (
    SymBool, SymInt, SymStr, SymBytes, LazyStr, SymHash, SymSeq, SYMS,
    _SYMSET, Unsupported, mkbool, mkint, mkstr, mkbytes, truth, as_b, as_t,
    sx_not, b2i, decide, char_table, join, repr_chars, slice_conc,
    index_conc, seq_eq)
from .containers import (SymDict, SymDefaultDict, SymSet, SymFrozenSet,
                         struct_hash, fast_eq, plain_key)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = type(len)
WrapperMethod = type(''.__len__)
CMethodType = type(re.compile('').match)
MethodDescr = type(str.lower)
WrapperDescr = type(object.__init__)
MethodWrapper = type(object().__str__)

_PLAINT = frozenset((str, int, bytes, bool, type(None), float))

# ------------------------------------------------------------- inspection


def has_sym(x, depth=3):
    t = type(x)
    if t in _PLAINT:
        return False
    if t in _SYMSET or t is SymHash:
        return True
    if t is SymByteArray:
        return any(type(c) is not int for c in x._l)
    if depth:
        if t is tuple or t is list:
            for i in x:
                if has_sym(i, depth - 1):
                    return True
            return False
        if t is dict or t is SymDict or t is SymDefaultDict:
            for k, v in x.items():
                if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                    return True
            return False
        if t is SymSet or t is SymFrozenSet:
            return True
        if t is slice:
            return has_sym(x.start) or has_sym(x.stop)
    return False


def concretise(x, note, depth=4):
    """Replace symbolic parts of x by values: all of them if there are few,
    else only the current one (the path is then flagged incomplete)."""
    t = type(x)
    if t in _PLAINT:
        return x
    p = en.PATH
    if t in _SYMSET or t is SymHash:
        if t is SymInt:
            return conc_terms([x.t], note)[0]
        if t is SymBool:
            return bool(x)
        if t is LazyStr:
            x = x.force()
            if type(x) is str:
                return x
            t = type(x)
        if t is SymHash:
            return 0
        return x._native(conc_terms(x._c, note))
    if t is SymByteArray:
        return bytearray(conc_terms(x._l, note))
    if depth:
        if t is tuple or t is list:
            return t(concretise(i, note, depth - 1) for i in x)
        if isinstance(x, dict) and t in (dict, SymDict, SymDefaultDict):
            return dict((concretise(k, note, depth - 1),
                         concretise(v, note, depth - 1))
                        for k, v in x.items())
        if t is SymSet:
            return set(concretise(i, note, depth - 1) for i in x)
        if t is SymFrozenSet:
            return frozenset(concretise(i, note, depth - 1) for i in x)
    return x


def conc_terms(ts, note):
    p = en.PATH
    n = 1
    for t in ts:
        if type(t) is not int:
            d = p.dom.get(t)
            n *= tm.iv_size(d) if d is not None else (t.hi - t.lo + 1)
            if n > 300:
                break
    if n <= 300:
        return [p.value(t) for t in ts]
    p.incomplete = p.incomplete or ('concretised for %s' % note)
    p.stats.concretised += 1
    return [p.pin(t) for t in ts]

# ------------------------------------------------------------- formatting


def sx_str(x):
    t = type(x)
    if t in _PLAINT:
        return str(x)
    if t is SymStr or t is LazyStr:
        return x
    if t is SymInt:
        return LazyStr([('d', x.t)])
    if t is SymBool:
        return 'True' if x else 'False'
    if t is SymHash:
        return '0'
    if t in (list, tuple, dict, SymDict, SymDefaultDict, SymSet,
             SymFrozenSet, SymBytes, SymByteArray):
        return sx_repr(x)
    f = t.__str__
    if type(f) is FunctionType:
        r = f(x)
        if not isinstance(r, str):
            raise TypeError('__str__ returned non-string (type %s)' %
                            type(r).__name__)
        return r
    if isinstance(x, BaseException):
        a = x.args
        if len(a) == 0:
            return ''
        if isinstance(x, KeyError):
            return sx_repr(a[0]) if len(a) == 1 else sx_repr(a)
        if has_sym(a) or not isinstance(x, OSError):
            if not isinstance(x, UnicodeError):
                return sx_str(a[0]) if len(a) == 1 else sx_repr(a)
        return str(x)
    if f is object.__str__ and not isinstance(x, type):
        return sx_repr(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if t in _PLAINT:
        return repr(x)
    if t in (SymStr, LazyStr, SymBytes):
        return LazyStr([('r', x)])
    if t is SymByteArray:
        return join('', ['bytearray(', sx_repr(x._b()), ')'])
    if t is SymInt:
        return LazyStr([('d', x.t)])
    if t is SymBool:
        return 'True' if x else 'False'
    if t is list:
        return join('', ['[', join(', ', [sx_repr(i) for i in x]), ']'])
    if t is tuple:
        return join('', ['(', join(', ', [sx_repr(i) for i in x]),
                         ',)' if len(x) == 1 else ')'])
    if isinstance(x, dict) and t in (dict, SymDict, SymDefaultDict):
        return join('', ['{', join(', ', [
            join(': ', [sx_repr(k), sx_repr(v)]) for k, v in x.items()]),
            '}'])
    if t is SymSet:
        if not x:
            return 'set()'
        return join('', ['{', join(', ', [sx_repr(i) for i in x]), '}'])
    f = t.__repr__
    if isinstance(x, tuple) and hasattr(t, '_fields') and \
            '__sx__' not in getattr(f, '__globals__', ('__sx__',)):
        # a named tuple
        return join('', [t.__name__, '(', join(', ', [
            join('=', [n, sx_repr(v)]) for n, v in zip(t._fields, x)]), ')'])
    if type(f) is FunctionType:
        return f(x)
    if isinstance(x, BaseException):
        return join('', [t.__name__, '(',
                         join(', ', [sx_repr(i) for i in x.args]), ')'])
    if f is object.__repr__:
        return '<%s object at 0x0>' % t.__name__
    return repr(x)


_SPEC = re.compile(r'^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?'
                   r'(?:\.(\d+))?([a-zA-Z%])?$', re.S)


def fmt_value(x, spec):
    t = type(x)
    if type(spec) is not str:
        spec = concretise(spec, 'format spec')
    if t in _PLAINT:
        return format(x, spec)
    if t is SymBytes or t in (list, tuple, SymSet, SymDict,
                              SymDefaultDict, dict):
        if spec:
            raise TypeError('unsupported format string passed to '
                            '%s.__format__' % x.__class__.__name__)
        return sx_str(x)
    if t in _SYMSET:
        if t is SymBool:
            return format(bool(x), spec)
        if not spec:
            return sx_str(x)
        m = _SPEC.match(spec)
        if not m:
            raise ValueError('Invalid format specifier')
        fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
        if t is SymInt:
            if typ not in (None, 'd') or sign or alt or comma or prec:
                return format(concretise(x, 'int format'), spec)
            s = LazyStr([('d', x.t)])
            align = align or '>'
            if zero and not fill:
                return pad(s.force(), int(width or 0), '0', '=')
        else:
            if typ not in (None, 's'):
                raise ValueError("Unknown format code '%s' for object of "
                                 "type 'str'" % typ)
            s = x.force() if t is LazyStr else x
            if prec is not None:
                s = s[:int(prec)]
            align = align or '<'
        return pad(s, int(width or 0), fill or ' ', align)
    f = t.__format__
    if type(f) is FunctionType:
        return f(x, spec)
    if f is object.__format__:
        if spec:
            raise TypeError('unsupported format string passed to '
                            '%s.__format__' % t.__name__)
        return sx_str(x)
    return format(x, spec)


def pad(s, width, fill, align):
    if not width:
        return s
    if type(s) is LazyStr:
        s = s.force()
    k = width - len(s)
    if k <= 0:
        return s
    if align == '<':
        return s + fill * k
    if align == '>':
        return fill * k + s
    if align == '=':
        if len(s) and decide(tm.isin(SymStr._chars(s)[0],
                                     ((43, 43), (45, 45)))):
            return s[:1] + fill * k + s[1:]
        return fill * k + s
    left = k // 2
    return fill * left + s + fill * (k - left)


def _field(name, args, kwargs, auto):
    first, rest = _first(name)
    if first == '':
        if auto[0] is False:
            raise ValueError('cannot switch from manual field specification '
                             'to automatic field numbering')
        first = auto[0]
        auto[0] += 1
    elif isinstance(first, int):
        if auto[0]:
            raise ValueError('cannot switch from automatic field numbering '
                             'to manual field specification')
        auto[0] = False
    if isinstance(first, int):
        try:
            obj = args[first]
        except IndexError:
            raise IndexError('Replacement index %d out of range for '
                             'positional args tuple' % first)
    else:
        obj = kwargs[first]
    for is_attr, key in rest:
        if is_attr:
            obj = getattr(obj, key)
        else:
            obj = obj[key]
    return obj


def _first(name):
    import _string
    return _string.formatter_field_name_split(name)


def str_format(fmt, args, kwargs, depth=2, auto=None):
    import _string
    if type(fmt) is not str:
        if type(fmt) is LazyStr:
            fmt = fmt.force()
        if type(fmt) is not str:
            fmt = concretise(fmt, 'format string')
    if auto is None:
        auto = [0]
    out = []
    for lit, name, spec, conv in _string.formatter_parser(fmt):
        if lit:
            out.append(lit)
        if name is None:
            continue
        obj = _field(name, args, kwargs, auto)
        if conv == 'r':
            obj = sx_repr(obj)
        elif conv == 's':
            obj = sx_str(obj)
        elif conv == 'a':
            obj = sx_ascii(obj)
        elif conv:
            raise ValueError('Unknown conversion specifier %r' % conv)
        if spec and '{' in spec:
            spec = str_format(spec, args, kwargs, depth - 1, auto)
        out.append(fmt_value(obj, spec))
    return join('', out)


_PCT = re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?'
                  r'[hlL]?(.)', re.S)


def percent_format(fmt, args):
    if type(fmt) is LazyStr:
        fmt = fmt.force()
    if type(fmt) not in (str,):
        if type(fmt) is SymStr:
            # only '%' characters matter
            if any(decide(tm.eq(c, 37)) for c in fmt._c):
                fmt = concretise(fmt, 'percent format')
            else:
                if isinstance(args, tuple) and args or \
                        not isinstance(args, (tuple, dict)):
                    raise TypeError('not all arguments converted during '
                                    'string formatting')
                return fmt
    out = []
    pos = 0
    n = 0
    tup = args if isinstance(args, tuple) else (args,)
    mapping = isinstance(args, dict)
    used_map = False

    def nextarg():
        nonlocal n
        if n >= len(tup):
            raise TypeError('not enough arguments for format string')
        n += 1
        return tup[n - 1]

    while True:
        i = fmt.find('%', pos)
        if i < 0:
            out.append(fmt[pos:])
            break
        out.append(fmt[pos:i])
        m = _PCT.match(fmt, i)
        if not m:
            raise ValueError('incomplete format')
        pos = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        if width == '*':
            width = int(nextarg())
        if prec == '*':
            prec = int(nextarg())
        if key is not None:
            if not mapping:
                raise TypeError('format requires a mapping')
            used_map = True
            v = args[key]
        else:
            v = nextarg()
        width = int(width or 0)
        align = '<' if '-' in flags else '>'
        if typ == 's':
            s = sx_str(v)
        elif typ == 'r':
            s = sx_repr(v)
        elif typ == 'a':
            s = sx_ascii(v)
        elif typ in 'di' and type(v) in (SymInt, SymBool):
            s = sx_str(mkint(as_t(v)))
            if '0' in flags and width and align == '>':
                out.append(pad(s, width, '0', '='))
                continue
            if '+' in flags or ' ' in flags:
                v = concretise(v, 'percent int')
                s = ('%' + flags + 'd') % v
        elif typ in 'di' and isinstance(v, str) and type(v) in _SYMSET:
            raise TypeError('%d format: a real number is required, not str')
        elif typ == 'c' and type(v) in (SymInt, SymStr):
            s = sx_chr(v) if type(v) is SymInt else v
        else:
            v = concretise(v, 'percent')
            s = ('%' + flags + (str(width) if width else '') +
                 ('.' + str(prec) if prec is not None else '') + typ) % (v,)
            width = 0
            prec = None
        if prec is not None and typ in 'sra':
            s = sx_getitem(s, slice(None, int(prec)))
        if width:
            s = pad(s, width, ' ', align)
        out.append(s)
    if not used_map and n < len(tup) and not mapping:
        raise TypeError('not all arguments converted during string '
                        'formatting')
    return join('', out)

# -------------------------------------------------------------- operators


def sx_in(x, c):
    t = type(c)
    tx = type(x)
    if t is str:
        if tx is str:
            return x in c
        if tx is SymStr:
            if len(x._c) == 1:
                return mkbool(tm.isin(x._c[0], iv_from(map(ord, c))))
            return mkbool(SymStr(tuple(map(ord, c))).b_contains(x._c))
        if tx is LazyStr:
            return sx_in(x.force(), c)
        return x in c
    if t is SymStr:
        return mkbool(c.b_contains(c._need(x)))
    if t is SymBytes:
        k = as_t(x)
        if k is not None:
            return mkbool(tm.borl([tm.eq(i, k) for i in c._c]))
        return mkbool(c.b_contains(c._need(x)))
    if t is SymByteArray:
        return sx_in(x, c._b())
    if t is bytes:
        if tx is SymByteArray:
            x = x._b()
            tx = type(x)
        if tx is SymInt:
            return mkbool(tm.isin(x.t, iv_from(c)))
        if tx is SymBytes:
            return mkbool(SymBytes(tuple(c)).b_contains(x._c))
        return x in c
    if t is LazyStr:
        return sx_in(x, c.force())
    if t is SymSet or t is SymFrozenSet:
        return mkbool(c.b_contains(x))
    if t is SymDict or t is SymDefaultDict:
        return mkbool(c.b_contains(x))
    if t is list or t is tuple:
        if tx in _PLAINT or tx in _SYMSET:
            if tx is LazyStr:
                x = x.force()
            parts = []
            for i in c:
                ti = type(i)
                if ti in _PLAINT and tx in _PLAINT:
                    if x is i or x == i:
                        return True
                    continue
                if ti not in _PLAINT and ti not in _SYMSET:
                    return x in c
                b = fast_eq(x, i)
                if b is True:
                    return True
                parts.append(b)
            return mkbool(tm.borl(parts))
        return x in c
    if has_sym(x) or not plain_key(x):
        if t in (set, frozenset):
            return mkbool(SymSet(c).b_contains(x))
        if isinstance(c, dict) and type(t.__contains__) is not FunctionType:
            return mkbool(SymDict(c).b_contains(x))
        if isinstance(c, range):
            k = as_t(x)
            if k is not None and c.step == 1:
                return mkbool(tm.isin(k, ((c.start, c.stop - 1),))
                              if c.stop > c.start else False)
        if type(c) in (type({}.keys()),):
            return mkbool(SymDict((k, 1) for k in c).b_contains(x))
    f = getattr(t, '__contains__', None)
    if type(f) is FunctionType and not isinstance(c, SymSeq):
        return f(c, x)
    return x in c


def sx_notin(x, c):
    r = sx_in(x, c)
    if r is True:
        return False
    if r is False:
        return True
    return sx_not(r)


_FAST = frozenset((str, int, bytes, bool, type(None), float))


def sx_eq(a, b):
    ta = type(a)
    if ta in _FAST:
        return a == b
    tb = type(b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        if len(a) != len(b):
            return False
        parts = []
        for x, y in zip(a, b):
            if x is y:
                continue
            tx, ty = type(x), type(y)
            if (tx in _FAST or tx in _SYMSET or tx is tuple or tx is list) \
                    and (ty in _FAST or ty in _SYMSET or ty is tuple or
                         ty is list):
                e = truth(sx_eq(x, y))
            else:
                if not decide(tm.bandl(parts)):
                    return False
                parts = []
                e = truth(x == y)
            if e is False:
                return False
            parts.append(e)
        return mkbool(tm.bandl(parts))
    return a == b


def sx_ne(a, b):
    ta = type(a)
    if ta in _FAST:
        return a != b
    tb = type(b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        return sx_not(sx_eq(a, b))
    return a != b


def sx_is(a, b):
    if type(a) is SymBool and (b is True or b is False or
                               type(b) is SymBool):
        return bool(a) is bool(b)
    if type(b) is SymBool and (a is True or a is False):
        return a is bool(b)
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


def sx_nothook(x):
    if x is True:
        return False
    if x is False:
        return True
    t = type(x)
    if t is SymBool:
        return mkbool(tm.bnot(x.b))
    if t is SymInt:
        return mkbool(tm.eq(x.t, 0))
    if t is SymSet:
        return mkbool(tm.bnot(x.b_any()))
    return not x


def sx_mod(a, b):
    t = type(a)
    if t is str or t is SymStr or t is LazyStr:
        return percent_format(a, b)
    if (t is bytes or t is SymBytes) and has_sym((a, b)):
        def text(x):
            tx = type(x)
            if tx is SymByteArray:
                x = x._b()
                tx = type(x)
            if tx is SymBytes:
                return SymStr(x._c)
            return bytes(x).decode('latin1') if tx in (bytes, bytearray) else x
        if isinstance(b, dict):
            b = dict((text(k), text(v)) for k, v in b.items())
        elif type(b) is tuple:
            b = tuple(map(text, b))
        else:
            b = text(b)
        r = percent_format(concretise(text(a), 'bytes format'), b)
        if type(r) is LazyStr:
            r = r.force()
        return mkbytes(SymStr._chars(r))
    return a % b


def sx_slice(a, b, c):
    return slice(a, b, c)


def sx_getitem(o, k):
    to = type(o)
    tk = type(k)
    if tk is int or tk is str:
        if to is str or to is bytes or to is list or to is tuple:
            return o[k]
        return o[k]
    if to is LazyStr:
        o = o.force()
        to = type(o)
    if tk is slice:
        if type(k.start) in (int, type(None)) and \
                type(k.stop) in (int, type(None)):
            return o[k]
        if to in (str, bytes, list, tuple, SymStr, SymBytes):
            return o[slice_conc(k, len(o))]
        return o[k]
    if tk is SymInt:
        if to in (str, bytes, list, tuple):
            n = len(o)
            t = k.t
            if decide(tm.lt(t, -n)) or decide(tm.le(n, t)):
                raise IndexError('%s index out of range' % to.__name__)
            if to in (str, bytes) and n:
                # a lookup table: one ite chain instead of n paths
                cs = tuple(o) if to is bytes else tuple(map(ord, o))
                r = cs[-1]
                for i in range(n - 2, -1, -1):
                    r = tm.ite(tm.isin(t, iv_from((i, i - n))), cs[i], r)
                return mkint(r) if to is bytes else mkstr((r,))
            return o[en.PATH.value(t)]
        return o[k]
    if isinstance(o, dict) and not plain_key(k) and \
            not issubclass(to, SymDict):
        if type(to.__getitem__) is not FunctionType:
            d = SymDict(o)
            m = getattr(to, '__missing__', None)
            if m is not None and k not in d:
                return m(o, k)
            return d[k]
    if type(o) is type:      # generic alias like list[str]
        return o[k]
    return o[k]


def sx_fval(x, conv, spec):
    if conv == 114:
        x = sx_repr(x)
    elif conv == 115:
        x = sx_str(x)
    elif conv == 97:
        x = sx_ascii(x)
    return fmt_value(x, spec)


def sx_fstr(*parts):
    return join('', parts)


def sx_dict(*items):
    d = SymDict()
    for k, v in items:
        d[k] = v
    return d


def sx_dictl(items):
    return sx_dict(*items)


def sx_dict3(*items):
    d = SymDict()
    for f, k, v in items:
        if f is None:
            d.update(v)
        else:
            d[k] = v
    return d


def sx_set(items):
    return SymSet(items)


def sx_tick():
    p = en.PATH
    if p is not None:
        p.steps += 1
        if p.steps > p.maxsteps:
            raise en.StepLimit()


_funcs = set()


def sx_enter(name):
    _funcs.add(name)
    p = en.PATH
    if p is not None:
        p.steps += 1
        if p.steps > p.maxsteps:
            raise en.StepLimit()


def sx_name(o):
    if isinstance(o, type):
        n = o.__dict__.get('__sx_name__')
        if n is not None:
            return n
    return o.__name__


def sx_reraise():
    e = sys.exc_info()[1]
    if isinstance(e, en.SxControl):
        raise e

# ---------------------------------------------------------------- builtins


def m_len(x):
    t = type(x)
    if t is SymSet or t is SymFrozenSet:
        return mkint(x.b_len())
    return len(x)


def m_ord(x):
    if type(x) is LazyStr:
        x = x.force()
    if type(x) in (SymStr, SymBytes):
        if len(x._c) != 1:
            raise TypeError('ord() expected a character, but string of '
                            'length %d found' % len(x._c))
        return mkint(x._c[0])
    return ord(x)


def sx_chr(x):
    t = as_t(x)
    if t is None or type(t) is int:
        return chr(x)
    if not decide(tm.isin(t, ((0, 0x10ffff),))):
        raise ValueError('chr() arg not in range(0x110000)')
    return mkstr((t,))


def m_hash(x):
    if type(x) in _SYMSET or type(x) is tuple or type(x) in _PLAINT:
        return SymHash(struct_hash(x))
    return hash(x)


def m_repr(x):
    return sx_repr(x)


def sx_ascii(x):
    """repr, with every character outside ASCII escaped."""
    r = sx_repr(x)
    if type(r) is LazyStr:
        if len(r.parts) == 1 and type(r.parts[0]) is tuple and (
                r.parts[0][0] == 'd' or isinstance(r.parts[0][1], bytes)):
            return r
        r = r.force()
    if type(r) is str:
        return ''.join(ascii(c)[1:-1] if c > '~' else c for c in r)
    out = []
    for c in SymStr._chars(r):
        if decide(tm.le(c, 0x7e)):
            out.append(c)
        else:
            out.extend(map(ord, ascii(chr(en.PATH.value(c)))[1:-1]))
    return mkstr(tuple(out))


def m_str(*a, **kw):
    if len(a) == 1 and not kw:
        return sx_str(a[0])
    if a and type(a[0]) in (SymBytes, SymByteArray):
        return a[0].decode(*a[1:], **kw)
    return str(*a, **kw)


def m_int(*a, **kw):
    if not a:
        return 0
    x = a[0]
    t = type(x)
    if t is LazyStr:
        if len(x.parts) == 1 and type(x.parts[0]) is tuple and \
                x.parts[0][0] == 'd' and len(a) == 1:
            return mkint(x.parts[0][1])
        x = x.force()
        t = type(x)
    if t is SymByteArray:
        a = (x._b(),) + a[1:]
        x = a[0]
        t = type(x)
        if t is bytes:
            return int(*a, **kw)
    if t is SymStr or t is SymBytes:
        if len(a) > 1 or kw:
            return int(concretise(x, 'int base'), *a[1:], **kw)
        return parse_int(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(b2i(x.b))
    if type(getattr(t, '__int__', None)) is FunctionType:
        return t.__int__(x)
    return int(x, *a[1:], **kw)


_digit_blocks = None


def digit_blocks():
    global _digit_blocks
    if _digit_blocks is None:
        out = []
        for lo, hi in char_table('isdecimal'):
            assert (hi - lo + 1) % 10 == 0
            for s in range(lo, hi + 1, 10):
                out.append(s)
        _digit_blocks = out
    return _digit_blocks


def parse_int(x):
    isb = type(x) is SymBytes
    x0 = x
    x = x.strip()
    cs = (SymBytes if isb else SymStr)._chars(x)

    def bad():
        raise ValueError(join('', [
            'invalid literal for int() with base 10: ', sx_repr(x0)]))
    sign = 1
    if not cs:
        bad()
    if decide(tm.eq(cs[0], 45)):
        sign = -1
        cs = cs[1:]
    elif decide(tm.eq(cs[0], 43)):
        cs = cs[1:]
    if not cs:
        bad()
    dec = ((48, 57),) if isb else char_table('isdecimal')
    val = 0
    prev_us = True
    for c in cs:
        if decide(tm.isin(c, dec)):
            if isb or decide(tm.isin(c, ((48, 57),))):
                d = tm.sub(c, 48)
            else:
                d = None
                for s in digit_blocks()[1:]:
                    if d is None:
                        d = tm.sub(c, s)
                    else:
                        d = tm.ite(tm.isin(c, ((s, s + 9),)), tm.sub(c, s),
                                   d)
            val = tm.add(tm.mulc(val, 10), d)
            prev_us = False
        elif decide(tm.eq(c, 95)) and not prev_us:
            prev_us = True
        else:
            bad()
    if prev_us:
        bad()
    return mkint(tm.mulc(val, sign))


def m_bool(*a):
    return mkbool(truth(a[0])) if a else False


def m_bytes(*a, **kw):
    if not a:
        return b''
    x = a[0]
    t = type(x)
    if t is LazyStr:
        x = x.force()
        t = type(x)
    if t is SymStr or (t is str and len(a) > 1):
        if len(a) < 2 and 'encoding' not in kw:
            raise TypeError('string argument without an encoding')
        return (x if t is SymStr else SymStr(tuple(map(ord, x)))).encode(
            *a[1:], **kw)
    if t is SymBytes:
        return x
    if t is SymByteArray:
        return x._b()
    if t is SymInt:
        return bytes(x.__index__())
    if t in _PLAINT:
        return bytes(*a, **kw)
    if hasattr(t, '__bytes__'):
        return bytes(x)
    items = list(x)
    out = []
    for i in items:
        k = as_t(i)
        if k is None:
            k = operator.index(i)
        if not decide(tm.isin(k, ((0, 255),))):
            raise ValueError('bytes must be in range(0, 256)')
        out.append(k)
    return mkbytes(out)


class SymByteArray(object):
    """A bytearray whose items may be symbolic."""
    __slots__ = ('_l',)
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def __init__(self, *a, **kw):
        self._l = []
        if a or kw:
            x = m_bytes(*a, **kw) if not (
                a and type(a[0]) is SymByteArray) else a[0]._b()
            self._l.extend(SymBytes._chars(x))

    def _b(self):
        return mkbytes(tuple(self._l))

    def _s(self):
        return SymBytes(tuple(self._l))

    @classmethod
    def _of(cls, cs):
        o = cls()
        o._l = list(cs)
        return o

    @classmethod
    def _wrap(cls, r):
        t = type(r)
        if t is bytes or t is SymBytes:
            return cls._of(SymBytes._chars(r))
        if t is list or t is tuple:
            return t(cls._wrap(i) for i in r)
        return r

    @staticmethod
    def _arg(a):
        return a._b() if type(a) is SymByteArray else (
            bytes(a) if type(a) is bytearray else a)

    @staticmethod
    def _byte(x):
        k = as_t(x)
        if k is None:
            k = operator.index(x)
        if not decide(tm.isin(k, ((0, 255),))):
            raise ValueError('byte must be in range(0, 256)')
        return k

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        m = getattr(self._s(), name)
        cls, arg = self._wrap, self._arg

        def call(*a, **kw):
            a = [type(i)(map(arg, i)) if type(i) in (list, tuple) else arg(i)
                 for i in a]
            return cls(m(*a, **kw))
        return call

    def decode(self, *a, **kw):
        return self._s().decode(*a, **kw)

    def __len__(self):
        return len(self._l)

    def __iter__(self):
        i = 0
        while i < len(self._l):
            yield SymBytes._item(self._l[i])
            i += 1

    def __reversed__(self):
        return reversed(list(self))

    def __contains__(self, o):
        return self._s().__contains__(self._arg(o))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._of(self._s()._c[slice_conc(k, len(self._l))])
        return self._s()[k]

    def _ix(self, k):
        return (slice_conc(k, len(self._l)) if isinstance(k, slice)
                else operator.index(k))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self._l[self._ix(k)] = self._of(
                SymBytes._chars(m_bytes(self._arg(v))))._l
        else:
            v = self._byte(v)
            self._l[self._ix(k)] = v

    def __delitem__(self, k):
        del self._l[self._ix(k)]

    def append(self, v):
        self._l.append(self._byte(v))

    def insert(self, i, v):
        self._l.insert(operator.index(i), self._byte(v))

    def extend(self, vs):
        self._l.extend(SymBytes._chars(m_bytes(self._arg(vs))))

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def pop(self, *i):
        if not self._l:
            raise IndexError('pop from empty bytearray')
        return SymBytes._item(self._l.pop(*map(operator.index, i)))

    def remove(self, v):
        i = self._s().find(mkbytes((self._byte(v),)))
        if i == -1:
            raise ValueError('value not found in bytearray')
        del self._l[i]

    def reverse(self):
        self._l.reverse()

    def clear(self):
        del self._l[:]

    def copy(self):
        return self._of(self._l)

    def __add__(self, o):
        return self._of(self._l + list(SymBytes._chars(self._arg(o))))

    def __radd__(self, o):
        return mkbytes(tuple(SymBytes._chars(o)) + tuple(self._l))

    def __mul__(self, n):
        return self._of(self._l * operator.index(n))

    def __mod__(self, o):
        return self._wrap(sx_mod(self._b(), o))

    def b_eq(self, o):
        c = SymBytes._chars(self._arg(o))
        return False if c is None else seq_eq(tuple(self._l), tuple(c))

    def __eq__(self, o):
        return decide(self.b_eq(o))

    def __ne__(self, o):
        return not decide(self.b_eq(o))

    def __lt__(self, o):
        return self._s() < self._arg(o)

    def __le__(self, o):
        return self._s() <= self._arg(o)

    def __gt__(self, o):
        return self._s() > self._arg(o)

    def __ge__(self, o):
        return self._s() >= self._arg(o)

    def __repr__(self):
        return '<SymByteArray %r>' % (self._l,)

    def __str__(self):
        return 'bytearray(%r)' % (bytes(self),)

    def __bytes__(self):
        b = self._b()
        return b.conc() if type(b) is SymBytes else b

    def __reduce__(self):
        return (bytearray, (bytes(self),))


def m_bytearray(*a, **kw):
    if a and type(a[0]) is SymInt:
        return bytearray(operator.index(a[0]))
    return SymByteArray(*a, **kw)


_values.SYMBA = SymByteArray


def m_memoryview(x):
    if type(x) is SymByteArray:
        x = x._b()
    return x if type(x) is SymBytes else memoryview(x)



def m_set(*a):
    return SymSet(*a)


def m_frozenset(*a):
    s = SymSet(*a)
    if s._plain is not None:
        return frozenset(s._plain)
    r = SymFrozenSet()
    return r._become(s)


def m_dict(*a, **kw):
    return SymDict(*a, **kw)


def m_type(*a, **kw):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if t in _SYMSET or t in (SymSet, SymFrozenSet):
            return x.__class__
        if t is SymDict:
            return dict
        if t is SymHash:
            return int
        if t is SymDefaultDict:
            return collections.defaultdict
        return t
    name, bases, ns = a[:3]
    ns = dict(ns)
    if type(name) in _SYMSET:
        sym = name.force() if type(name) is LazyStr else name
        if type(sym) is not str:
            ns['__sx_name__'] = sym
            name = 'SxDynamicClass'
        else:
            name = sym
    return type(name, bases, ns, *a[3:], **kw)


def m_any(it):
    acc = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        except Exception:
            if acc and decide(tm.borl(acc)):
                return True
            raise
        b = truth(x)
        if b is True:
            return True
        if b is not False:
            acc.append(b)
    return mkbool(tm.borl(acc))


def m_all(it):
    acc = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        except Exception:
            if acc and not decide(tm.bandl(acc)):
                return False
            raise
        b = truth(x)
        if b is False:
            return False
        if b is not True:
            acc.append(b)
    return mkbool(tm.bandl(acc))


def wrapkey(kw):
    k = kw.get('key')
    if k is not None and type(k) not in (FunctionType, MethodType):
        kw = dict(kw)
        kw['key'] = lambda x: sx_call(k, x)
    return kw


def m_sorted(it, /, **kw):
    return sorted(it, **wrapkey(kw))


def m_min(*a, **kw):
    return min(*a, **wrapkey(kw))


def m_max(*a, **kw):
    return max(*a, **wrapkey(kw))


def m_map(f, *its):
    for a in zip(*its):
        yield sx_call(f, *a)


def m_filter(f, it):
    for x in it:
        if (x if f is None else sx_call(f, x)):
            yield x


def m_print(*a, sep=' ', end='\n', file=None, flush=False):
    p = en.PATH
    if p is None:
        return
    text = join('', [join(' ' if sep is None else sep,
                          [sx_str(x) for x in a]),
                     '\n' if end is None else end])
    if file is None:
        file = sys.stdout
    if isinstance(file, SymIO):     # redirected
        pass
    elif file is sys.stdout or file is sys.stderr or \
            file is sys.__stdout__ or file is sys.__stderr__:
        p.printed.append(('err' if file in (sys.stderr, sys.__stderr__)
                          else 'out', text))
        return
    file.write(text)


def m_format(x, spec=''):
    return fmt_value(x, spec)


def m_defaultdict(*a, **kw):
    return SymDefaultDict(*a, **kw)


def m_ordereddict(*a, **kw):
    return SymOrderedDict(*a, **kw)


class SymOrderedDict(SymDict):
    __slots__ = ()

    def move_to_end(self, key, last=True):
        if not last:
            value = self[key]
            del self[key]
            rest = list(self.items())
            self.clear()
            self[key] = value
            for k, v in rest:
                self[k] = v
            return
        value = self[key]
        del self[key]
        self[key] = value

    def popitem(self, last=True):
        if not self:
            raise KeyError('dictionary is empty')
        k = list(self)[-1 if last else 0]
        return k, self.pop(k)


def m_counter(it=(), **kw):
    d = SymCounter()
    if isinstance(it, dict):
        for k, n in it.items():
            d[k] = n
    else:
        for x in it:
            d[x] = d[x] + 1
    for k, n in kw.items():
        d[k] = d[k] + n
    return d


class SymCounter(SymDict):
    __slots__ = ()

    def update(self, it=(), **kw):
        for k, n in m_counter(it, **kw).items():
            self[k] = self[k] + n

    def subtract(self, it=(), **kw):
        for k, n in m_counter(it, **kw).items():
            self[k] = self[k] - n

    def elements(self):
        return (k for k, n in self.items() for _ in range(n))

    def total(self):
        return m_sum(self.values())

    def copy(self):
        return m_counter(self)

    def _combine(self, o, f):
        d = SymCounter()
        for k in list(self) + [k for k in o if k not in self]:
            n = f(self[k], o[k])
            if n > 0:
                d[k] = n
        return d

    def __add__(self, o):
        return self._combine(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._combine(o, lambda a, b: a - b)

    def __or__(self, o):
        return self._combine(o, lambda a, b: a if a >= b else b)

    def __and__(self, o):
        return self._combine(o, lambda a, b: a if a <= b else b)

    def __missing__(self, key):
        return 0

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]


def m_isinstance(x, t):
    return isinstance(x, t)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_partial(f, *a, **kw):
    return functools.partial(sx_call, f, *a, **kw)


class SymIO(object):
    """What io.BytesIO and io.StringIO do, of any contents."""

    def _start(self, empty, initial):
        self._empty = empty
        self._data = empty if initial is None else initial
        self._at = 0

    def write(self, data):
        if type(data) is LazyStr:
            data = data.force()
        head = self._data[:self._at]
        self._data = head + data + self._data[self._at + len(data):]
        self._at += len(data)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def getvalue(self):
        return self._data

    def read(self, n=-1):
        end = len(self._data) if n is None or n < 0 else self._at + n
        out = self._data[self._at:end]
        self._at += len(out)
        return out

    def readline(self, n=-1):
        nl = '\n' if self._empty == '' else b'\n'
        pos = sx_call(self._data.find, nl, self._at)
        out = self._data[self._at:
                         len(self._data) if pos < 0 else pos + 1]
        self._at += len(out)
        return out

    def readlines(self, n=-1):
        return [line for line in self]

    def __iter__(self):
        while True:
            line = self.readline()
            if not len(line):
                return
            yield line

    def seek(self, pos, whence=0):
        self._at = pos + (self._at if whence == 1 else
                          len(self._data) if whence == 2 else 0)
        return self._at

    def tell(self):
        return self._at

    def truncate(self, n=None):
        self._data = self._data[:self._at if n is None else n]

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class SymBytesIO(SymIO, io.BytesIO):
    def __init__(self, initial=None):
        io.BytesIO.__init__(self)
        self._start(b'', initial)


class SymStringIO(SymIO, io.StringIO):
    def __init__(self, initial=None, newline='\n'):
        io.StringIO.__init__(self)
        self._start('', initial)


def m_reduce(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        acc = next(it)
    for x in it:
        acc = sx_call(f, acc, x)
    return acc


def m_groupby(it, key=None):
    cur = []
    curk = None
    out = []
    for x in it:
        k = x if key is None else sx_call(key, x)
        if out and bool(out[-1][0] == k):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(v)) for k, v in out])


def m_takewhile(f, it):
    for x in it:
        if not sx_call(f, x):
            return
        yield x


def m_filterfalse(f, it):
    for x in it:
        if not (x if f is None else sx_call(f, x)):
            yield x


def m_starmap(f, it):
    for x in it:
        yield sx_call(f, *x)


# heapq.py, which the accelerated module replaces
def m_heappush(heap, item):
    heap.append(item)
    _siftdown(heap, 0, len(heap) - 1)


def m_heappop(heap):
    last = heap.pop()
    if heap:
        item = heap[0]
        heap[0] = last
        _siftup(heap, 0)
        return item
    return last


def m_heapify(x):
    for i in reversed(range(len(x) // 2)):
        _siftup(x, i)


def m_heappushpop(heap, item):
    if heap and heap[0] < item:
        item, heap[0] = heap[0], item
        _siftup(heap, 0)
    return item


def m_heapreplace(heap, item):
    first = heap[0]
    heap[0] = item
    _siftup(heap, 0)
    return first


def _siftdown(heap, start, pos):
    new = heap[pos]
    while pos > start:
        up = (pos - 1) >> 1
        if not new < heap[up]:
            break
        heap[pos] = heap[up]
        pos = up
    heap[pos] = new


def _siftup(heap, pos):
    end = len(heap)
    start = pos
    new = heap[pos]
    child = 2 * pos + 1
    while child < end:
        if child + 1 < end and not heap[child] < heap[child + 1]:
            child += 1
        heap[pos] = heap[child]
        pos = child
        child = 2 * pos + 1
    heap[pos] = new
    _siftdown(heap, start, pos)


def m_dropwhile(f, it):
    it = iter(it)
    for x in it:
        if not sx_call(f, x):
            yield x
            break
    for x in it:
        yield x


def m_accumulate(it, func=None, *, initial=None):
    acc = initial
    first = initial is None
    if not first:
        yield acc
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = acc + x if func is None else sx_call(func, acc, x)
        yield acc


def m_fspath(p):
    return p


def m_re(name):
    def f(pattern, *a, **kw):
        args = list(a)
        flags = kw.pop('flags', 0)
        if name in ('match', 'search', 'fullmatch', 'findall', 'finditer'):
            if len(args) > 1:
                flags = args.pop(1)
                a = tuple(args)
        elif name == 'split':
            if len(args) > 2:
                flags = args.pop(2)
                a = tuple(args)
        elif len(args) > 3:
            flags = args.pop(3)
            a = tuple(args)
        if not has_sym(pattern) and not has_sym(tuple(args)):
            return getattr(re, name)(pattern, *a, flags=flags, **kw)
        return getattr(rx.compile_sym(pattern, flags), name)(*args, **kw)
    return f


def m_recompile(pattern, flags=0):
    if has_sym(pattern):
        return rx.compile_sym(pattern, flags)
    return re.compile(pattern, flags)


def m_chain_from(its):
    for i in its:
        for x in i:
            yield x


def m_getattr(o, name, *d):
    if type(name) in _SYMSET:
        name = concretise(name, 'getattr')
    if name == '__name__':
        return sx_name(o)
    return getattr(o, name, *d)


def m_list(*a):
    return list(*a)


def m_exists(path):
    return os.path.exists(concretise(path, 'exists'))


TYPE_MODELS = {
    str: m_str, int: m_int, bool: m_bool, bytes: m_bytes,
    bytearray: m_bytearray, memoryview: m_memoryview, set: m_set,
    frozenset: m_frozenset, dict: m_dict, type: m_type,
    map: m_map, filter: m_filter,
    collections.defaultdict: m_defaultdict,
    collections.OrderedDict: m_ordereddict,
    collections.Counter: m_counter,
    functools.partial: m_partial,
    io.BytesIO: SymBytesIO, io.StringIO: SymStringIO,
    itertools.groupby: m_groupby,
    itertools.takewhile: m_takewhile,
    itertools.dropwhile: m_dropwhile,
    itertools.filterfalse: m_filterfalse,
    itertools.starmap: m_starmap,
    itertools.accumulate: m_accumulate,
}

MODELS = {
    len: m_len, ord: m_ord, chr: sx_chr, hash: m_hash, repr: m_repr,
    ascii: sx_ascii,
    any: m_any, all: m_all, sorted: m_sorted, min: m_min, max: m_max,
    print: m_print, format: m_format, getattr: m_getattr, sum: m_sum,
    functools.reduce: m_reduce, os.fspath: m_fspath,
    re.match: m_re('match'), re.search: m_re('search'),
    re.fullmatch: m_re('fullmatch'), re.findall: m_re('findall'),
    re.finditer: m_re('finditer'), re.sub: m_re('sub'),
    re.subn: m_re('subn'), re.split: m_re('split'),
    re.compile: m_recompile, re.escape: rx.escape,
    itertools.chain.from_iterable: m_chain_from,
}


_OPS = {}
for _n, _f in (('eq', sx_eq), ('ne', sx_ne), ('not_', sx_nothook),
               ('mod', sx_mod), ('getitem', sx_getitem)):
    MODELS[getattr(operator, _n)] = _f
MODELS[operator.contains] = lambda a, b: sx_in(b, a)
MODELS[operator.truth] = m_bool
for _n in ('heappush', 'heappop', 'heapify', 'heappushpop', 'heapreplace'):
    MODELS[getattr(heapq, _n)] = globals()['m_' + _n]
MODELS[json.dumps] = lambda x, *a, **kw: json.dumps(
    concretise(x, 'json.dumps'), *a, **kw)
MODELS[operator.concat] = operator.add

# shadow copies of pure-Python stdlib modules
SHADOW = ('posixpath', 'genericpath', 'string', 'textwrap', 'fnmatch',
          'shlex', 'bisect', 'stat')
_shadow = {}


def shadow(fn):
    modname = fn.__module__
    if modname not in SHADOW:
        return None
    key = (modname, fn.__qualname__)
    if key not in _shadow:
        from . import instrument
        mod = sys.modules.get('sxshadow_' + modname)
        if mod is None:
            src = importlib.import_module(modname).__file__
            mod = instrument.load_file('sxshadow_' + modname, src)
            sys.modules['sxshadow_' + modname] = mod
        o = mod
        for part in fn.__qualname__.split('.'):
            o = getattr(o, part, None)
        if type(o) is not FunctionType:
            o = None
        _shadow[key] = o
    return _shadow[key]


def any_sym_args(args, kw):
    for a in args:
        t = type(a)
        if t in _PLAINT:
            continue
        if has_sym(a):
            return True
    if kw:
        for a in kw.values():
            if has_sym(a):
                return True
    return False


_NATIVE_OK = frozenset((list, tuple, enumerate, zip, reversed, range, object,
                        super, property, staticmethod, classmethod,
                        itertools.chain, slice, memoryview,
                        collections.deque, iter, next))
_NATIVE_FN = frozenset((iter, next, isinstance, issubclass, callable, id,
                        setattr, hasattr, delattr, vars, abs, divmod,
                        hash, globals, locals,
                        operator.lt, operator.le, operator.gt, operator.ge,
                        operator.add, operator.sub, operator.mul,
                        operator.and_, operator.or_, operator.xor,
                        operator.invert, operator.neg, operator.pos,
                        operator.abs, operator.lshift, operator.rshift,
                        operator.floordiv, operator.is_, operator.is_not,
                        operator.setitem, operator.delitem,
                        operator.indexOf, operator.countOf,
                        operator.length_hint, operator.iadd))


def sx_call(fn, /, *args, **kw):
    t = type(fn)
    if t is FunctionType:
        m = MODELS.get(fn)
        if m is not None:
            return m(*args, **kw)
        if '__sx__' in fn.__globals__:
            return fn(*args, **kw)
        if any_sym_args(args, kw):
            s = shadow(fn)
            if s is not None:
                return s(*args, **kw)
        return fn(*args, **kw)
    if t is MethodType:
        if fn.__func__ is str_format:
            pass
        return fn(*args, **kw)
    if t is BuiltinType or t is CMethodType:
        m = MODELS.get(fn)
        if m is not None:
            return m(*args, **kw)
        o = fn.__self__
        if o is None or type(o) is types.ModuleType:
            if fn in _NATIVE_FN:
                return fn(*args, **kw)
            if any_sym_args(args, kw):
                return unmodelled(fn, args, kw)
            return fn(*args, **kw)
        return bound_builtin(fn, o, args, kw)
    if t is type:
        m = TYPE_MODELS.get(fn)
        if m is not None:
            return m(*args, **kw)
        return fn(*args, **kw)
    if t is MethodDescr or t is WrapperDescr:
        if args:
            a0 = args[0]
            ta = type(a0)
            if ta in _SYMSET:
                return sx_call(getattr(a0, fn.__name__), *args[1:], **kw)
            if ta is str or ta is bytes:
                return sx_call(getattr(a0, fn.__name__), *args[1:], **kw)
        return fn(*args, **kw)
    if isinstance(fn, type):
        # classes with a metaclass, subclasses of builtins ...
        m = TYPE_MODELS.get(fn)
        if m is not None:
            return m(*args, **kw)
        return fn(*args, **kw)
    if t is WrapperMethod and args and any_sym_args(args, kw):
        m = {'__contains__': _flip_in, '__getitem__': sx_getitem,
             '__eq__': sx_eq, '__ne__': sx_ne}.get(fn.__name__)
        if m is not None:
            return m(fn.__self__, *args)
        if type(fn.__self__) in (str, bytes):
            k = SymStr if type(fn.__self__) is str else SymBytes
            return getattr(k(k._chars(fn.__self__)), fn.__name__)(*args)
    return fn(*args, **kw)


def _flip_in(c, x):
    return sx_in(x, c)


def bound_builtin(fn, o, args, kw):
    to = type(o)
    name = fn.__name__
    if to is str:
        if name == 'join':
            parts = list(args[0])
            for p in parts:
                if type(p) is not str:
                    return join(o, parts)
            return o.join(parts)
        if name == 'format':
            return str_format(o, args, kw)
        if name == 'format_map':
            return str_format(o, (), args[0])
        if args and any_sym_args(args, kw):
            s = SymStr(tuple(map(ord, o)))
            if name in ('isdigit',):
                pass
            return getattr(s, name)(*args, **kw)
        return fn(*args, **kw)
    if to is bytes:
        if name == 'join':
            parts = list(args[0])
            for p in parts:
                if type(p) is not bytes:
                    return join(o, parts)
            return o.join(parts)
        if any_sym_args(args, kw):
            return getattr(SymBytes(tuple(o)), name)(*args, **kw)
        return fn(*args, **kw)
    if to is re.Pattern:
        if any_sym_args(args, kw):
            return getattr(rx.from_pattern(o), name)(*args, **kw)
        return fn(*args, **kw)
    if isinstance(o, list):
        if name == 'sort':
            return fn(*args, **wrapkey(kw))
        return fn(*args, **kw)
    if isinstance(o, tuple) and name in ('index', 'count'):
        return fn(*args, **kw)      # by ==, which forks
    if name == '__contains__' and isinstance(
            o, (list, tuple, set, frozenset)):
        return sx_in(args[0], o)
    if isinstance(o, (dict, set, frozenset)):
        if to in (dict, set, frozenset) and args and not plain_key(args[0]) \
                and not isinstance(args[0], (dict, list, set)):
            if name in ('get', '__getitem__', '__contains__'):
                return getattr((SymDict if to is dict else SymSet)(o),
                               name)(*args)
        return fn(*args, **kw)
    if isinstance(o, type):
        # alternative constructors: dict.fromkeys, bytes.fromhex, ...
        if o is dict and name == 'fromkeys':
            return SymDict((k, args[1] if len(args) > 1 else None)
                           for k in args[0])
        if name == '__new__' or name == 'maketrans':
            return fn(*args, **kw)
        if any_sym_args(args, kw):
            return unmodelled(fn, args, kw)
        return fn(*args, **kw)
    if o is sys.stderr or o is sys.stdout or o is sys.__stderr__ or \
            o is sys.__stdout__:
        if name in ('write', 'writelines') and en.PATH is not None:
            text = args[0] if name == 'write' else join('', list(args[0]))
            en.PATH.printed.append(
                ('err' if o in (sys.stderr, sys.__stderr__) else 'out', text))
            if name != 'write':
                return None
            return LazyLen(text) if type(text) is LazyStr else len(text)
        return fn(*args, **kw)
    if isinstance(o, (collections.deque, types.GeneratorType,
                      itertools.chain)):
        return fn(*args, **kw)
    if any_sym_args(args, kw):
        return unmodelled(fn, args, kw)
    return fn(*args, **kw)


class LazyLen(object):
    """What write() returns: the length of a text not looked at yet."""
    __class__ = property(lambda self: int)

    def __init__(self, text):
        self._text = text

    def __index__(self):
        return len(self._text)

    __int__ = __index__

    def __getattr__(self, name):
        return getattr(len(self._text), name)

    def __eq__(self, o):
        return len(self._text) == o

    def __lt__(self, o):
        return len(self._text) < o

    def __gt__(self, o):
        return len(self._text) > o

    def __add__(self, o):
        return len(self._text) + o

    __radd__ = __add__

    def __sub__(self, o):
        return len(self._text) - o

    def __rsub__(self, o):
        return o - len(self._text)

    def __bool__(self):
        return len(self._text) > 0

    def __hash__(self):
        return hash(len(self._text))

    def __repr__(self):
        return repr(len(self._text))


def unmodelled(fn, args, kw):
    note = getattr(fn, '__qualname__', repr(fn))
    args = tuple(concretise(a, note) for a in args)
    kw = dict((k, concretise(v, note)) for k, v in kw.items())
    return fn(*args, **kw)


def sx_base(c):
    """The base class to use for c."""
    if c is io.BytesIO:
        return SymBytesIO
    if c is io.StringIO:
        return SymStringIO
    if c is dict:
        return SymDict
    if c is collections.OrderedDict:
        return SymOrderedDict
    if c is collections.defaultdict:
        return SymDefaultDict
    if c is collections.Counter:
        return SymCounter
    return c


def sx_boolm(f):
    @functools.wraps(f)
    def __bool__(self):
        return bool(f(self))
    return __bool__


HOOKS = {
    '__sx_base__': sx_base, '__sx_boolm__': sx_boolm,
    '__sx_call__': sx_call, '__sx_in__': sx_in, '__sx_notin__': sx_notin,
    '__sx_eq__': sx_eq, '__sx_ne__': sx_ne, '__sx_is__': sx_is,
    '__sx_isnot__': sx_isnot, '__sx_not__': sx_nothook,
    '__sx_mod__': sx_mod, '__sx_slice__': sx_slice,
    '__sx_getitem__': sx_getitem, '__sx_fval__': sx_fval,
    '__sx_fstr__': sx_fstr, '__sx_dict__': sx_dict,
    '__sx_dictl__': sx_dictl, '__sx_dict3__': sx_dict3,
    '__sx_set__': sx_set, '__sx_tick__': sx_tick, '__sx_enter__': sx_enter,
    '__sx_name__': sx_name, '__sx_reraise__': sx_reraise,
}
