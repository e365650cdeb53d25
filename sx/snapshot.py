"""Snapshot and restore of the mutable state that instrumented modules hold,
so that every path starts from the same state."""
import collections
import sys
import types
from .containers import SymDict, SymSet, _K

_ATOM = (str, int, bytes, bool, type(None), float, complex, range,
         types.BuiltinFunctionType, types.CodeType, types.MethodType)
_SKIPK = frozenset(('__builtins__', '__weakref__', '__dict__', '__doc__',
                    '__spec__', '__loader__', '__cached__', '__file__',
                    '__annotations__'))


def sx_modules():
    return dict((n, m) for n, m in list(sys.modules.items())
                if getattr(m, '__dict__', None) is not None and
                m.__dict__.get('__sx__') is True)


class Snapshot(object):
    def __init__(self):
        self.mods = sx_modules()
        self.modnames = set(sys.modules)
        self.items = []      # (kind, obj, saved)
        seen = set()
        todo = list(self.mods.values())
        while todo:
            o = todo.pop()
            if isinstance(o, _ATOM) or id(o) in seen:
                continue
            seen.add(id(o))
            todo.extend(self._one(o))

    def _one(self, o):
        out = []
        t = type(o)
        if t is types.ModuleType:
            if '__sx__' not in o.__dict__:
                return ()
            d = dict((k, v) for k, v in o.__dict__.items())
            self.items.append(('dict', o.__dict__, d))
            return [v for k, v in d.items() if k not in _SKIPK and
                    not k.startswith('__sx_')]
        if isinstance(o, type):
            m = sys.modules.get(o.__module__)
            if m is None or getattr(m, '__sx__', None) is not True:
                return ()
            d = dict((k, v) for k, v in o.__dict__.items()
                     if k not in _SKIPK)
            self.items.append(('class', o, d))
            out = list(d.values())
            out.append(type(o))
            out.extend(o.__bases__)
            return out
        if t is types.FunctionType:
            if '__sx__' not in o.__globals__:
                return ()
            if o.__dict__:
                self.items.append(('dict', o.__dict__, dict(o.__dict__)))
                out.extend(o.__dict__.values())
            if o.__defaults__:
                out.extend(o.__defaults__)
            if o.__kwdefaults__:
                out.extend(o.__kwdefaults__.values())
            for c in o.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.items.append(('cell', c, v))
                out.append(v)
            return out
        if t in (classmethod, staticmethod):
            return [o.__func__]
        if t is property:
            return [o.fget, o.fset, o.fdel]
        if t is tuple or t is frozenset:
            return list(o)
        if isinstance(o, list):
            self.items.append(('list', o, list(o)))
            out.extend(o)
        elif isinstance(o, dict):
            d = dict(dict.items(o))
            self.items.append(('dict', o, d))
            for k, v in d.items():
                out.append(k.k if type(k) is _K else k)
                out.append(v)
            if isinstance(o, SymDict):
                out.append(o._sk)
            if isinstance(o, collections.defaultdict):
                out.append(o.default_factory)
        elif isinstance(o, set) and t is not SymSet and issubclass(t, set):
            self.items.append(('set', o, set(o)))
            out.extend(o)
        elif isinstance(o, collections.deque):
            self.items.append(('deque', o, list(o)))
            out.extend(o)
        elif isinstance(o, bytearray):
            self.items.append(('list', o, bytes(o)))
        if t is SymSet or issubclass(t, SymSet):
            d = dict(o.__dict__)
            self.items.append(('dict', o.__dict__, d))
            out.extend(d.values())
            return out
        # instances
        mod = sys.modules.get(t.__module__)
        if getattr(mod, '__sx__', None) is True:
            d = getattr(o, '__dict__', None)
            if type(d) is dict:
                self.items.append(('dict', d, dict(d)))
                out.extend(d.values())
            for c in t.__mro__:
                sl = c.__dict__.get('__slots__', ())
                for s in ((sl,) if isinstance(sl, str) else sl):
                    if s in ('__dict__', '__weakref__'):
                        continue
                    if s.startswith('__') and not s.endswith('__'):
                        s = '_%s%s' % (c.__name__.lstrip('_'), s)
                    try:
                        v = object.__getattribute__(o, s)
                        self.items.append(('slot', (o, s), (True, v)))
                        out.append(v)
                    except AttributeError:
                        self.items.append(('slot', (o, s), (False, None)))
        return out

    def restore(self):
        if len(sys.modules) != len(self.modnames):
            for n in list(sys.modules):
                if n not in self.modnames:
                    m = sys.modules[n]
                    if getattr(m, '__sx__', None) is True and \
                            not n.startswith('sxshadow_'):
                        del sys.modules[n]
        for kind, o, s in self.items:
            if kind == 'dict':
                if dict.__len__(o) != len(s) or any(
                        dict.get(o, k, o) is not v for k, v in s.items()):
                    dict.clear(o)
                    dict.update(o, s)
            elif kind == 'list':
                if len(o) != len(s) or any(
                        a is not b for a, b in zip(o, s)):
                    o[:] = s
            elif kind == 'class':
                cur = o.__dict__
                for k in [k for k in cur if k not in s and
                          k not in _SKIPK]:
                    try:
                        type.__delattr__(o, k)
                    except (AttributeError, TypeError):
                        pass
                for k, v in s.items():
                    if cur.get(k, o) is not v:
                        try:
                            type.__setattr__(o, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif kind == 'set':
                if len(o) != len(s) or o != s:
                    o.clear()
                    o.update(s)
            elif kind == 'deque':
                o.clear()
                o.extend(s)
            elif kind == 'cell':
                if o.cell_contents is not s:
                    o.cell_contents = s
            elif kind == 'slot':
                obj, name = o
                try:
                    if s[0]:
                        if getattr(obj, name, obj) is not s[1]:
                            object.__setattr__(obj, name, s[1])
                    elif hasattr(obj, name):
                        object.__delattr__(obj, name)
                except AttributeError:
                    pass
