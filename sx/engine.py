"""Path exploration: decisions, feasibility, solver interface."""
import time
import z3
from . import terms as tm
from .terms import (T, B, iv_and, iv_has, ev, evb, bnot)


class SxControl(BaseException):
    """Control-flow exceptions of the engine (never seen by the code)."""


class PathEnd(SxControl):
    """The path is abandoned (assumption violated, infeasible)."""


class StepLimit(SxControl):
    """The code under test ran more steps than any terminating run may."""


class Inconclusive(SxControl):
    """Solver answered unknown / engine limit."""


class Deadline(SxControl):
    pass


class Stats(object):
    FIELDS = ('paths', 'pruned', 'decisions', 'forks', 'z3_sat', 'z3_unsat',
              'z3_unknown', 'z3_ms', 'iv_sat', 'iv_unsat', 'cache_hits',
              'obligations', 'obl_trivial', 'obl_z3', 'pc_verified',
              'iv_recheck', 'concretised', 'steps', 'inconclusive')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return dict((f, getattr(self, f)) for f in self.FIELDS)

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Solver(object):
    def __init__(self, stats, timeout_ms=20000):
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.cache = {}
        self.iv_seen = {}
        self._new()

    def _new(self):
        self.s = z3.SolverFor('QF_LIA')
        self.s.set('timeout', self.timeout_ms)

    def reset(self):
        self.cache.clear()
        self.iv_seen.clear()
        self._new()

    def check(self, doms, cons):
        """doms: list of (var, iv); cons: list of B. -> dict or None"""
        key = (tuple(sorted((v.id, iv) for v, iv in doms)),
               tuple(sorted(c.id for c in cons)))
        try:
            r = self.cache[key]
            self.stats.cache_hits += 1
            return r
        except KeyError:
            pass
        t0 = time.time()
        s = self.s
        s.push()
        try:
            for v, iv in doms:
                s.add(tm.z_in(tm.to_z(v), iv))
            for c in cons:
                s.add(tm.to_zb(c))
            res = s.check()
            if res == z3.sat:
                m = s.model()
                r = {}
                for v, iv in doms:
                    val = m.eval(tm.to_z(v), model_completion=True)
                    r[v] = val.as_long()
                self.stats.z3_sat += 1
            elif res == z3.unsat:
                r = None
                self.stats.z3_unsat += 1
            else:
                self.stats.z3_unknown += 1
                raise Inconclusive('solver: %s' % s.reason_unknown())
        finally:
            s.pop()
            self.stats.z3_ms += int((time.time() - t0) * 1000)
        if len(self.cache) > 200000:
            self.cache.clear()
        self.cache[key] = r
        return r

    def iv_verdict(self, dom, iv, res):
        """Remember a verdict that interval reasoning produced; every
        distinct one is re-discharged by z3 (recheck)."""
        key = (dom, iv)
        if key not in self.iv_seen:
            self.iv_seen[key] = res
            if len(self.iv_seen) >= 4000:
                self.recheck()

    def recheck(self):
        x = z3.Int('x')
        for (dom, iv), res in self.iv_seen.items():
            if res == 'done':
                continue
            t0 = time.time()
            self.s.push()
            self.s.add(tm.z_in(x, dom))
            self.s.add(tm.z_in(x, iv))
            got = self.s.check()
            self.s.pop()
            self.stats.z3_ms += int((time.time() - t0) * 1000)
            self.stats.iv_recheck += 1
            if got == z3.sat:
                self.stats.z3_sat += 1
            else:
                self.stats.z3_unsat += 1
            if (got == z3.sat) != res:
                raise AssertionError(
                    'interval verdict refuted by z3: %r %r' % (dom, iv))
        if len(self.iv_seen) >= 4000:
            self.iv_seen.clear()
        else:
            for k in self.iv_seen:
                self.iv_seen[k] = 'done'


PREFER = [ord(c) for c in 'a0s1(,;"$ =>x_-b']


def pick(iv):
    for p in PREFER:
        if iv_has(iv, p):
            return p
    if iv_has(iv, 0):
        return 0
    for lo, hi in iv:
        if lo > -tm.INF:
            return lo
        if hi < tm.INF:
            return hi
    return 0


class Path(object):
    """State of one path being executed."""

    def __init__(self, eng, prefix, model):
        self.eng = eng
        self.stats = eng.stats
        self.solver = eng.solver
        self.prefix = prefix      # list of decisions to follow
        self.pos = 0
        self.trace = []           # decisions taken
        self.model_names = model  # name -> value, for fresh variables
        self.model = {}           # var -> value
        self.dom = {}             # var -> iv
        self.cons = []            # B terms that are not `in(var)`
        self.convars = set()
        self.steps = 0
        self.maxsteps = eng.maxsteps
        self.inputs = {}          # name -> descriptor
        self.order = []
        self.checks = []
        self.observed = []
        self.covers = set()
        self.failures = []
        self.printed = []
        self.incomplete = None
        self.counter = {}

    # -- variables
    def new_var(self, name, dom):
        v = tm.var(name, dom)
        if v not in self.dom:
            self.dom[v] = dom
            val = self.model_names.get(name)
            if val is None or not iv_has(dom, val):
                val = pick(dom)
            self.model[v] = val
        return v

    # -- constraints
    def _add(self, c):
        """c holds from here on; self.model must already satisfy it."""
        if c is True:
            return
        if c.op == 'and':
            for p in c.args:
                self._add(p)
            return
        if c.op == 'in' and c.args[0].op == 'var':
            v, iv = c.args
            self.dom[v] = iv_and(self.dom[v], iv)
            return
        self.cons.append(c)
        self.convars |= c.vars

    def quick(self, c):
        """Decide c from the domains alone: True/False/None."""
        if c is True or c is False:
            return c
        op = c.op
        if op == 'in':
            t, iv = c.args
            if t.op == 'var':
                d = self.dom[t]
                i = iv_and(d, iv)
                if not i:
                    return False
                if i == d:
                    return True
            return None
        if op == 'and':
            res = True
            for p in c.args:
                r = self.quick(p)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if op == 'or':
            res = False
            for p in c.args:
                r = self.quick(p)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        return None

    def sat(self, c):
        """Is path condition and c satisfiable?  -> model updates or None"""
        if c is False:
            return None
        if c is True:
            return {}
        parts = c.args if c.op == 'and' else (c,)
        simple = True
        for p in parts:
            if not (p.op == 'in' and p.args[0].op == 'var' and
                    p.args[0] not in self.convars):
                simple = False
                break
        if simple:
            upd = {}
            for p in parts:
                v, iv = p.args
                d = self.dom[v]
                i = iv_and(d, iv)
                self.solver.iv_verdict(d, iv, bool(i))
                if not i:
                    self.stats.iv_unsat += 1
                    return None
                upd[v] = pick(i)
            self.stats.iv_sat += 1
            return upd
        # connected component
        vs = set(c.vars)
        todo = list(self.cons)
        used = []
        grew = True
        while grew:
            grew = False
            rest = []
            for k in todo:
                if k.vars & vs:
                    used.append(k)
                    if not k.vars <= vs:
                        vs |= k.vars
                        grew = True
                    else:
                        grew = grew or False
                else:
                    rest.append(k)
            todo = rest
        return self.solver.check([(v, self.dom[v]) for v in vs], used + [c])

    # -- decisions
    def decide(self, c):
        """Branch on boolean term c; returns a Python bool."""
        if c is True or c is False:
            return c
        q = self.quick(c)
        if q is not None:
            return q
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self._add(c if d & 1 else bnot(c))
            return bool(d & 1)
        self.eng.tick_deadline()
        here = evb(c, self.model)
        other = bnot(c) if here else c
        upd = self.sat(other)
        if upd is not None:
            m = dict((v.args[0], x) for v, x in self.model.items())
            m.update((v.args[0], x) for v, x in upd.items())
            # names of model values for variables not created yet
            for k, x in self.model_names.items():
                m.setdefault(k, x)
            self.stats.forks += 1
            self.eng.push(self.trace + [0 if here else 1], m)
            self.trace.append(1 if here else 0)
        else:
            self.trace.append(3 if here else 2)   # forced
        self._add(c if here else bnot(c))
        return here

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd('assume')
        q = self.quick(c)
        if q is True:
            return
        if q is False:
            raise PathEnd('assume')
        if not evb(c, self.model):
            upd = self.sat(c)
            if upd is None:
                raise PathEnd('assume')
            self.model.update(upd)
        self._add(c)

    def value(self, t):
        """Fork over the possible values of int term t; returns an int."""
        if type(t) is int:
            return t
        while True:
            if t.op == 'var' and t not in self.convars:
                d = self.dom[t]
                if len(d) == 1 and d[0][0] == d[0][1]:
                    return d[0][0]
            # the value tried must be a function of the path only
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
            else:
                v = ev(t, self.model)
            self.trace.append(v)
            if self.decide(tm.eq(t, v)):
                return v

    def pin(self, t):
        """Concretise t to its current model value WITHOUT exploring the
        other values (under-approximation, flags the path)."""
        if type(t) is int:
            return t
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
        else:
            v = ev(t, self.model)
        self.trace.append(v)
        c = tm.eq(t, v)
        if c is not True:
            if not evb(c, self.model):
                upd = self.sat(c)
                if upd is None:
                    raise PathEnd('pin')
                self.model.update(upd)
            self._add(c)
        return v

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise StepLimit()

    # -- end of path
    def verify_pc(self):
        """z3 decides the complete path condition; returns a model that is
        used for replay."""
        doms = [(v, d) for v, d in self.dom.items()]
        if not doms:
            return {}
        t0 = time.time()
        s = self.solver.s
        s.push()
        try:
            for v, iv in doms:
                s.add(tm.z_in(tm.to_z(v), iv))
            for c in self.cons:
                s.add(tm.to_zb(c))
            res = s.check()
            if res == z3.unknown:
                self.stats.z3_unknown += 1
                raise Inconclusive('path condition: unknown')
            if res == z3.unsat:
                raise AssertionError(
                    'engine error: infeasible path was executed')
            self.stats.z3_sat += 1
            self.stats.pc_verified += 1
            m = s.model()
            out = {}
            for v, _ in doms:
                out[v] = m.eval(tm.to_z(v), model_completion=True).as_long()
            return out
        finally:
            s.pop()
            self.stats.z3_ms += int((time.time() - t0) * 1000)


class Engine(object):
    """One worker's engine."""

    def __init__(self, maxsteps=200000, deadline=None):
        self.stats = Stats()
        self.solver = Solver(self.stats)
        self.maxsteps = maxsteps
        self.deadline = deadline
        self.stack = []
        self.path = None
        self.cur = None
        self.functions = set()
        self._n = 0

    def tick_deadline(self):
        self._n += 1
        if not self._n & 63 and self.deadline and \
                time.time() > self.deadline:
            raise Deadline()

    def push(self, prefix, model):
        self.stack.append((self.cur, prefix, model))


ENGINE = None
PATH = None


def set_path(p):
    global PATH
    PATH = p


def get_path():
    return PATH


def decide(c):
    if c is True or c is False:
        return c
    return PATH.decide(c)
