"""Runner: explores all jobs of one property module on several processes,
replays counterexamples and samples on the unmodified code, writes evidence.

  run.py PROP [quick|thorough] [--job SUBSTR] [--jobs N] [--verbose]
"""
import importlib
import json
import mmap
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sx import terms as tm          # noqa: E402
from sx import engine as en         # noqa: E402
from sx import instrument           # noqa: E402
from sx import models               # noqa: E402
from sx import ctx as cx            # noqa: E402
from sx import values               # noqa: E402
from sx.snapshot import Snapshot    # noqa: E402

NATIVE = os.path.join(HERE, 'sx', 'native.py')
PYPY = os.environ.get('SX_NATIVE', 'pypy3')


def load(prop):
    os.environ.pop('ALINT_IGNORE', None)
    sys.path.insert(0, REPO)
    instrument.install({'asterisklint': os.path.join(REPO, 'asterisklint'),
                        'contrib': os.path.join(REPO, 'contrib'),
                        'web': os.path.join(REPO, 'web'),
                        'props': os.path.join(HERE, 'props')})
    sys.setrecursionlimit(6000)
    mod = importlib.import_module('props.' + prop)
    if hasattr(mod, 'setup'):
        p = en.Path(en.Engine(maxsteps=10 ** 9), [], {})
        en.set_path(p)
        try:
            mod.setup()
        finally:
            en.set_path(None)
        if p.dom:
            raise AssertionError('setup() created symbolic inputs')
    return mod


class Worker(object):
    def __init__(self, idx, conn, idle, jobs, snap, tier, opts):
        self.idx = idx
        self.conn = conn
        self.idle = idle
        self.jobs = jobs
        self.snap = snap
        self.tier = tier
        self.opts = opts
        self.eng = en.Engine(maxsteps=opts['maxsteps'],
                             deadline=opts['deadline'])
        self.samples = []
        self.covers = set()
        self.notes = {}
        self.jobpaths = {}
        self.sent_funcs = set()
        self.nfail = {}
        self.verify_s = 0.0
        self.t0 = time.time()

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    def report(self):
        funcs = models._funcs - self.sent_funcs
        self.sent_funcs |= funcs
        r = {'stats': self.eng.stats.as_dict(), 'samples': self.samples,
             'covers': sorted(self.covers), 'notes': self.notes,
             'jobpaths': self.jobpaths, 'funcs': sorted(funcs)}
        self.samples = []
        self.notes = {}
        self.jobpaths = {}
        self.covers = set()
        self.eng.stats = st = en.Stats()
        self.eng.solver.stats = st
        return r

    def failure(self, job, f):
        key = (job, f.label, f.known)
        n = self.nfail.get(key, 0)
        self.nfail[key] = n + 1
        if n < 3:
            info = None
            try:
                info = cx.plain(f.info, dict(
                    (v, f.model.get(v.args[0], 0)) for v in self.path.dom)) \
                    if f.info is not None else None
            except Exception:
                pass
            self.conn.send(('fail', job, f.label, f.known, info, f.model))

    def run_path(self, job, prefix, model):
        eng = self.eng
        eng.cur = job
        func, kwargs = self.jobs[job]
        p = en.Path(eng, prefix, model)
        self.path = p
        en.set_path(p)
        c = cx.Ctx(p, self.tier)
        done = False
        st = eng.stats
        try:
            try:
                func(c, **kwargs)
                done = True
            except en.PathEnd:
                st.pruned += 1
            except en.StepLimit:
                c.refute(True, 'hang', None)
            except en.Inconclusive as e:
                st.inconclusive += 1
                self.note('%s: inconclusive: %s' % (job, e))
            except values.Unsupported as e:
                st.inconclusive += 1
                self.note('%s: unsupported: %s' % (job, e))
            except en.Deadline:
                eng.stack.append((job, prefix, model))
                raise
            except RecursionError:
                c.refute(True, 'exception:RecursionError', None)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                try:
                    text = str(e)[:200]
                except Exception:
                    text = '?'
                loc = ' <- '.join('%s:%s' % (os.path.basename(f.filename),
                                             f.lineno) for f in tb[-6:][::-1])
                c.refute(True, 'exception:%s' % type(e).__name__,
                         '%s @ %s' % (text, loc))
            st.paths += 1
            st.steps += p.steps
            self.jobpaths[job] = self.jobpaths.get(job, 0) + 1
            if p.incomplete:
                self.note('%s: %s' % (job, p.incomplete))
            self.covers |= p.covers
            for f in p.failures:
                self.failure(job, f)
            if done and not p.failures:
                n = self.jobpaths_total.get(job, 0)
                self.jobpaths_total[job] = n + 1
                samp = n < 2 or self.rng.random() < 0.02
                # the whole path condition again, by z3, within a budget
                if samp or self.verify_s < 0.25 * (
                        time.time() - self.t0) + 1:
                    t = time.time()
                    m = p.verify_pc()
                    self.verify_s += time.time() - t
                    if samp:
                        self.samples.append(
                            (job, dict((v.args[0], x)
                                       for v, x in m.items()),
                             [[k, cx.plain(v, m)] for k, v in p.observed],
                             sorted(p.covers)))
        finally:
            en.set_path(None)
            self.snap.restore()

    def main(self):
        self.rng = random.Random(self.opts['seed'] * 100 + self.idx)
        self.jobpaths_total = {}
        first = True
        while True:
            if not first:
                self.eng.solver.recheck()
            self.conn.send(('next', self.report()))
            first = False
            item = self.conn.recv()
            if item is None:
                break
            self.eng.stack.append(item)
            try:
                while self.eng.stack:
                    if self.eng.deadline and \
                            time.time() > self.eng.deadline:
                        raise en.Deadline()
                    job, prefix, model = self.eng.stack.pop()
                    self.run_path(job, prefix, model)
                    if len(self.eng.stack) > 1 and any(self.idle[:]):
                        k = (len(self.eng.stack) + 1) // 2
                        give = self.eng.stack[:k]
                        self.eng.stack = self.eng.stack[k:]
                        self.conn.send(('donate', give))
                    if tm.table_size() > 400000:
                        self.eng.solver.recheck()
                        tm.reset_table()
                        self.eng.solver.reset()
            except en.Deadline:
                self.note('%s: time budget exhausted, %d branches left' % (
                    self.eng.cur, len(self.eng.stack)))
                self.eng.stack = []
        self.conn.send(('bye',))
        self.conn.close()


def worker_main(*a):
    try:
        Worker(*a).main()
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        try:
            a[1].send(('crash', traceback.format_exc()))
        except Exception:
            pass
        os._exit(1)
    os._exit(0)


class Native(object):
    """A server process running the unmodified code."""

    def __init__(self, prop, timeout=20):
        env = dict(os.environ, SX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
        env.pop('ALINT_IGNORE', None)
        self.p = subprocess.Popen(
            [PYPY, NATIVE, 'serve', prop, str(timeout)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            universal_newlines=True, cwd='/')
        self.ready = False
        self.lock = threading.Lock()

    def ask(self, tier, job, model):
        with self.lock:
            if not self.ready:
                line = self.p.stdout.readline()
                if line.strip() != 'ready':
                    raise RuntimeError('native server: %r' % line)
                self.ready = True
            self.p.stdin.write(json.dumps(
                {'tier': tier, 'job': job, 'model': model}) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError('native server died')
            return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def known_ids(prop):
    fn = os.path.join(HERE, 'known-findings.json')
    try:
        with open(fn) as f:
            data = json.load(f)
    except OSError:
        return {}
    return dict((k['id'], k) for k in data.get('known', [])
                if k['property'] == prop)


class Master(object):
    def __init__(self, prop, tier, args):
        self.prop = prop
        self.tier = tier
        self.args = args
        self.t0 = time.time()
        self.mod = load(prop)
        self.jobs = self.mod.jobs(tier)
        if args.get('job'):
            self.jobs = [j for j in self.jobs if args['job'] in j[0]]
        names = [j[0] for j in self.jobs]
        assert len(set(names)) == len(names), 'duplicate job names'
        self.snap = Snapshot()
        self.stats = en.Stats()
        self.notes = {}
        self.covers = set()
        self.funcs = set()
        self.samples = []
        self.jobpaths = {}
        self.fails = {}          # (label, known) -> list
        self.known = known_ids(prop)
        self.violations = []
        self.known_seen = {}
        self.unconfirmed = []
        self.natives = []
        self.budget = float(os.environ.get(
            'SX_BUDGET', getattr(self.mod, 'BUDGET', {}).get(
                tier, 420 if tier == 'quick' else 780)))

    def native(self, i=0):
        while len(self.natives) <= i:
            self.natives.append(Native(self.prop))
        return self.natives[i]

    def on_fail(self, job, label, known, info, model):
        key = (label, known)
        lst = self.fails.setdefault(key, [])
        if len(lst) >= (8 if known is None else 4):
            return False
        if any(x['confirmed'] for x in lst) and known is not None:
            return False
        try:
            res = self.native().ask(self.tier, job, model)
        except RuntimeError as e:
            res = {'status': 'error', 'text': str(e)}
        rec = {'job': job, 'label': label, 'known': known, 'info': info,
               'model': model, 'native': res, 'confirmed': False}
        lst.append(rec)
        if self.args.get('verbose') and len(lst) < 3:
            sys.stderr.write('FAIL %s %s known=%s info=%s native=%s\n' % (
                job, label, known, info, json.dumps(res)[:600]))
        bad = res['status'] in ('fail', 'exception', 'hang', 'crash')
        if not bad:
            self.unconfirmed.append(rec)
            return False
        rec['confirmed'] = True
        ids = [k for k in res.get('known', ()) if k in self.known]
        if known is not None and known in self.known:
            if known in ids or not ids:
                self.known_seen[known] = rec
                return False
        elif ids:
            self.known_seen[ids[0]] = rec
            return False
        self.violations.append(rec)
        return True

    def explore(self):
        nw = int(self.args.get('jobs') or os.environ.get('SX_WORKERS') or
                 max(1, min(8, os.cpu_count() or 1)))
        idle = mmap.mmap(-1, nw)
        opts = {'maxsteps': getattr(self.mod, 'MAXSTEPS', 300000),
                'deadline': self.t0 + self.budget,
                'seed': int(os.environ.get('VERIF_SEED', '1') or 1)}
        jobs = dict((n, (f, k)) for n, f, k in self.jobs)
        queue = [(n, [], {}) for n, _, _ in self.jobs][::-1]
        procs, conns = [], []
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(nw):
            a, b = mp.Pipe()
            pid = os.fork()
            if pid == 0:
                a.close()
                for c in conns:
                    c.close()
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                worker_main(i, b, idle, jobs, self.snap, self.tier, opts)
            b.close()
            procs.append(pid)
            conns.append(a)
        for i in range(1 if self.tier == 'quick' else 1):
            self.native(i)
        waiting = []
        live = set(range(nw))
        stop = False
        crashed = None
        while live and not stop:
            ready = mpc.wait([conns[i] for i in live], timeout=30)
            if not ready and time.time() > opts['deadline'] + 120:
                self.notes['workers stuck after the deadline'] = 1
                break
            for c in ready:
                i = conns.index(c)
                try:
                    msg = c.recv()
                except (EOFError, ConnectionError):
                    live.discard(i)
                    self.notes['worker died'] = 1
                    crashed = crashed or 'worker died'
                    continue
                if msg[0] == 'next':
                    self.merge(msg[1])
                    waiting.append(i)
                    idle[i] = 1
                elif msg[0] == 'donate':
                    queue.extend(msg[1])
                elif msg[0] == 'fail':
                    if self.on_fail(*msg[1:]) and \
                            not self.args.get('all'):
                        stop = True
                        break
                elif msg[0] == 'crash':
                    crashed = msg[1]
                    live.discard(i)
                elif msg[0] == 'bye':
                    live.discard(i)
            while queue and waiting:
                i = waiting.pop()
                idle[i] = 0
                conns[i].send(queue.pop())
            if len(waiting) == len(live) and not queue:
                break
        for i in live:
            try:
                if not stop:
                    conns[i].send(None)
            except Exception:
                pass
        if not stop:
            t = time.time() + 10
            for i in list(live):
                try:
                    if conns[i].poll(max(0, t - time.time())):
                        conns[i].recv()
                except (EOFError, ConnectionError):
                    pass
        for pid in procs:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        return crashed

    def merge(self, r):
        self.stats.add(r['stats'])
        self.samples.extend(r['samples'])
        self.covers |= set(r['covers'])
        self.funcs |= set(r['funcs'])
        for k, v in r['notes'].items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in r['jobpaths'].items():
            self.jobpaths[k] = self.jobpaths.get(k, 0) + v

    def validate(self):
        """Replay sampled paths on the unmodified code."""
        cap = int(os.environ.get('SX_REPLAYS', '0')) or (
            160 if self.tier == 'quick' else 600)
        rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
        samples = self.samples
        if len(samples) > cap:
            # one for every job first
            byjob = {}
            for s in samples:
                byjob.setdefault(s[0], []).append(s)
            first = [v[0] for v in byjob.values()]
            rest = [s for v in byjob.values() for s in v[1:]]
            rng.shuffle(first)
            rng.shuffle(rest)
            samples = (first + rest)[:cap]
        self.validated = 0
        self.diverged = []
        lock = threading.Lock()
        it = iter(samples)
        deadline = time.time() + 90

        def work(k):
            nat = self.native(k)
            while True:
                with lock:
                    s = next(it, None)
                if s is None or time.time() > deadline:
                    return
                job, model, obs, covers = s
                try:
                    res = nat.ask(self.tier, job, model)
                except RuntimeError as e:
                    with lock:
                        self.diverged.append((s, {'status': 'error',
                                                  'text': str(e)}))
                    return
                ok = res['status'] == 'ok' and res['observed'] == \
                    json.loads(json.dumps(obs)) and \
                    res['covers'] == covers and not res['missing']
                with lock:
                    if ok:
                        self.validated += 1
                    else:
                        self.diverged.append((s, res))
        n = min(4, max(1, len(samples) // 8))
        for k in range(n):
            self.native(k)
        ths = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return samples

    def main(self):
        crashed = self.explore()
        t_explore = time.time() - self.t0
        out = []
        used = []
        self.validated = 0
        self.diverged = []
        if not self.violations:
            used = self.validate()
            # a sample that fails natively is a violation too
            for s, res in self.diverged:
                if res['status'] in ('fail', 'exception', 'hang', 'crash') \
                        and not [k for k in res.get('known', ())
                                 if k in self.known]:
                    self.violations.append(
                        {'job': s[0], 'label': res.get('label'),
                         'known': None, 'info': None, 'model': s[1],
                         'native': res, 'confirmed': True})
        for n in self.natives:
            n.close()
        replays = []
        evdir = os.path.join(HERE, 'evidence')
        os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
        for i, v in enumerate(self.violations[:10]):
            fn = os.path.join(evdir, 'replay', '%s-%d.json' % (
                self.prop, i))
            with open(fn, 'w') as f:
                json.dump({'module': self.prop, 'tier': self.tier,
                           'job': v['job'], 'label': v['label'],
                           'info': v['info'], 'model': v['model'],
                           'native': v['native'],
                           'run': '%s %s replay %s' % (PYPY, NATIVE, fn)},
                          f, indent=1)
            replays.append(fn)
        st = self.stats
        goals = set(getattr(self.mod, 'COVERS', ()))
        if isinstance(getattr(self.mod, 'COVERS', None), dict):
            goals = set(self.mod.COVERS.get(self.tier, ()))
        missing = sorted(goals - self.covers) \
            if not self.args.get('job') else []
        incomplete = []
        for k, v in sorted(self.notes.items()):
            incomplete.append('%s (x%d)' % (k, v))
        if crashed:
            incomplete.append('worker crashed: %s' %
                              crashed.strip().splitlines()[-1])
        if not self.violations:
            for m in missing:
                incomplete.append('coverage goal not reached: %s' % m)
            for s, res in self.diverged:
                incomplete.append(
                    'sampled path of %s differs on the real code: %s' % (
                        s[0], res.get('status')))
            for u in self.unconfirmed:
                incomplete.append(
                    'counterexample not reproduced on the real code: '
                    '%s %s' % (u['job'], u['label']))
        wall = time.time() - self.t0
        funcs = sorted(f for f in self.funcs
                       if f.startswith('asterisklint'))
        cov = {
            'states': st.paths,
            'transitions': st.decisions,
            'traces_validated_against_impl': self.validated,
            'traces_diverging': len(self.diverged),
            'exhaustive': not incomplete and not self.violations,
            'functions_encoded': funcs,
            'bounds': getattr(self.mod, 'BOUNDS', {}).get(
                self.tier, getattr(self.mod, 'BOUNDS', {}).get('quick', '')),
            'outside_bounds': getattr(self.mod, 'OUTSIDE', ''),
            'queries': {
                'z3_sat': st.z3_sat, 'z3_unsat': st.z3_unsat,
                'z3_unknown': st.z3_unknown,
                'cached': st.cache_hits,
                'interval_verdicts': st.iv_sat + st.iv_unsat,
                'interval_verdicts_rechecked_by_z3': st.iv_recheck,
                'path_conditions_verified_by_z3': st.pc_verified,
            },
            'obligations': {'total': st.obligations,
                            'trivially_true': st.obl_trivial,
                            'decided_by_z3': st.obl_z3},
            'solver_time_s': round(st.z3_ms / 1000.0, 2),
            'forks': st.forks, 'pruned': st.pruned,
            'concretised': st.concretised,
            'inconclusive': st.inconclusive,
            'steps': st.steps,
            'jobs': dict(sorted(self.jobpaths.items())),
            'cover_goals_reached': sorted(self.covers),
            'incomplete': incomplete,
            'explore_s': round(t_explore, 2),
            'samples': [{'job': s[0], 'input': render(s[1]),
                         'observed': s[2]} for s in (
                used[:8] if used else
                [(v['job'], v['model'], v['label'])
                 for v in self.violations[:3]])],
        }
        ev = {'property': self.prop, 'tier': self.tier,
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': 'model_checking', 'coverage': cov,
              'assumptions': list(getattr(self.mod, 'ASSUMPTIONS', ())),
              'wall_s': round(wall, 2),
              'violations': len(self.violations)}
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        print('%s %s: paths=%d decisions=%d obligations=%d z3=%d/%d/%d '
              'solver=%.1fs validated=%d wall=%.1fs%s' % (
                  self.prop, self.tier, st.paths, st.decisions,
                  st.obligations, st.z3_sat, st.z3_unsat, st.z3_unknown,
                  st.z3_ms / 1000.0, self.validated, wall,
                  '' if incomplete or self.violations
                  else ' EXHAUSTIVE-WITHIN-BOUNDS'))
        for s in incomplete[:20]:
            print('INCOMPLETE property=%s %s' % (self.prop, s))
        if self.args.get('verbose'):
            for s, res in self.diverged[:5]:
                print('DIVERGED', s, json.dumps(res))
            for j, n in sorted(self.jobpaths.items(),
                               key=lambda x: -x[1])[:15]:
                print('  %6d %s' % (n, j))
        if self.violations:
            v = self.violations[0]
            print('  %s in %s: %s input %s' % (
                v['label'], v['job'], v['info'], render(v['model'])))
            for fn in replays[:1]:
                print('VIOLATION property=%s replay=%s' % (self.prop, fn))
            return 1
        for kid in sorted(self.known):
            rec = self.known_seen.get(kid)
            if rec is None:
                if not self.args.get('job'):
                    print('NOTE: known finding %s of %s was not seen' % (
                        kid, self.prop))
                continue
            print('KNOWN-FINDING: property=%s %s: %s' % (
                self.prop, kid, self.known[kid]['what']))
        if crashed:
            print(crashed, file=sys.stderr)
            return 2
        return 0


def render(model):
    """name[i] variables to strings."""
    out = {}
    arr = {}
    for k, v in model.items():
        if k.endswith(']') and '[' in k:
            n, i = k[:-1].rsplit('[', 1)
            arr.setdefault(n, {})[int(i)] = v
        else:
            out[k] = v
    for n, d in arr.items():
        out[n] = ''.join(chr(d[i]) if i in d else '\ufffd'
                         for i in range(max(d) + 1))
    return out


def main(argv):
    args = {}
    pos = []
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in ('--verbose', '-v'):
            args['verbose'] = True
        elif a == '--all':
            args['all'] = True
        elif a in ('--job', '--jobs'):
            i += 1
            args[a[2:]] = argv[i]
        else:
            pos.append(a)
        i += 1
    prop = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return Master(prop, tier, args).main()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
