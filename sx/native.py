"""Concrete twin of the harness API: runs the same harness on the unmodified
code with the input values the solver produced.  Python 3.9 / PyPy."""
import io
import json
import os
import signal
import sys


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class Ctx(object):
    symbolic = False

    def __init__(self, model, tier):
        self._m = model
        self.tier = tier
        self._obs = []
        self._covers = set()
        self._known = []
        self.failed = None
        self._missing = []

    def _get(self, name, lo):
        if name not in self._m:
            self._missing.append(name)
            return lo
        return self._m[name]

    def _single(self, alpha):
        iv = alphabet(alpha)
        if len(iv) == 1 and iv[0][0] == iv[0][1]:
            return iv[0][0]
        return None

    def str(self, name, n, alpha='any:'):
        s = self._single(alpha)
        if s is not None:
            return chr(s) * n
        lo = alphabet(alpha)[0][0]
        return ''.join(chr(self._get('%s[%d]' % (name, i), lo))
                       for i in range(n))

    def bytes(self, name, n, alpha='byte:'):
        s = self._single(alpha)
        if s is not None:
            return bytes([s]) * n
        lo = alphabet(alpha)[0][0]
        return bytes(self._get('%s[%d]' % (name, i), lo) for i in range(n))

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self._get(name, lo)

    def bool(self, name):
        return bool(self._get(name, 0))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._get(name, 0)]

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def fork(self, x):
        return bool(x)

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def cover(self, label):
        self._covers.add(label)

    def known(self, kid, cond=True, label=''):
        if cond:
            self._known.append((kid, label))

    def observe(self, name, value):
        self._obs.append((name, value))

    def output(self, which='err'):
        f = sys.stderr if which == 'err' else sys.stdout
        return f.getvalue()

    def check(self, cond, label, info=None):
        if not cond:
            self.failed = label
            raise CheckFailed(label)


NAMED = {
    'any': ((0, 0xd7ff), (0xe000, 0x10ffff)),
    'text': ((0, 9), (11, 0xd7ff), (0xe000, 0x10ffff)),
    'bmp': ((0, 0xd7ff), (0xe000, 0xffff)),
    'ascii': ((0, 127),),
    'asciiq': ((0, 27), (32, 127)),
    'bmpq': ((0, 27), (32, 0x180d), (0x180f, 0xd7ff), (0xe000, 0xffff)),
    'printable': ((32, 126),),
    'latin1': ((0, 255),),
    'byte': ((0, 255),),
    'nolf': ((0, 9), (11, 255)),
    'digit': ((48, 57),),
    'alnum': ((48, 57), (65, 90), (97, 122)),
    'lower': ((97, 122),),
    'upper': ((65, 90),),
    'alpha': ((65, 90), (97, 122)),
    'word': ((48, 57), (65, 90), (95, 95), (97, 122)),
}


def alphabet(a):
    if isinstance(a, (tuple, list)):
        return [tuple(p) for p in a]
    if ':' in a and a.split(':', 1)[0] in NAMED:
        name, rest = a.split(':', 1)
        if rest:
            return ((NAMED[name][0][0], NAMED[name][-1][1]),)
        return NAMED[name]
    return [(min(map(ord, a)), max(map(ord, a)))]


def plain(x):
    if x is None or type(x) in (str, int, bool, float):
        return x
    if isinstance(x, bytes):
        return {'b': x.decode('latin1')}
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return [plain(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted([plain(i) for i in x], key=repr)
    if isinstance(x, dict):
        return sorted([[plain(k), plain(v)] for k, v in x.items()],
                      key=repr)
    return '<%s>' % type(x).__name__


def run_one(func, kwargs, model, tier):
    ctx = Ctx(model, tier)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    res = {'status': 'ok'}
    try:
        try:
            func(ctx, **kwargs)
        except CheckFailed as e:
            res = {'status': 'fail', 'label': ctx.failed}
        except AssumeFailed:
            res = {'status': 'assume'}
        except Exception as e:
            res = {'status': 'exception',
                   'label': 'exception:%s' % type(e).__name__,
                   'text': str(e)[:300]}
    finally:
        sys.stdout, sys.stderr = out, err
    res['observed'] = [[n, plain(v)] for n, v in ctx._obs]
    res['known'] = [k for k, lb in ctx._known
                    if (res.get('label') or '').startswith(lb)]
    res['missing'] = ctx._missing
    res['covers'] = sorted(ctx._covers)
    return res


def load(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    for p in (os.environ.get('SX_REPO', '/repo'), here):
        if p not in sys.path:
            sys.path.insert(0, p)
    os.environ.pop('ALINT_IGNORE', None)
    import importlib
    mod = importlib.import_module('props.' + prop)
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod


def serve(prop, timeout):
    """One request per line; every request runs in a forked child."""
    sys.setrecursionlimit(1000)
    mod = load(prop)
    jobs = {}
    sys.stdout.write('ready\n')
    sys.stdout.flush()
    for line in sys.stdin:
        req = json.loads(line)
        tier = req['tier']
        if tier not in jobs:
            jobs[tier] = dict((n, (f, k)) for n, f, k in mod.jobs(tier))
        func, kwargs = jobs[tier][req['job']]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(timeout)
            try:
                res = run_one(func, kwargs, req['model'], tier)
                data = json.dumps(res)
            except BaseException as e:
                data = json.dumps({'status': 'error', 'text': repr(e)[:300]})
            with os.fdopen(w, 'w') as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status) or not data:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            data = json.dumps({'status': 'hang' if sig == signal.SIGALRM
                               else 'crash', 'label': 'hang'
                               if sig == signal.SIGALRM else 'crash'})
        sys.stdout.write(data.replace('\n', ' ') + '\n')
        sys.stdout.flush()


def main(argv):
    if argv[0] == 'serve':
        serve(argv[1], int(argv[2]) if len(argv) > 2 else 20)
        return 0
    # replay FILE
    with open(argv[1]) as f:
        rep = json.load(f)
    mod = load(rep['module'])
    jobs = dict((n, (f, k)) for n, f, k in mod.jobs(rep['tier']))
    func, kwargs = jobs[rep['job']]
    signal.alarm(60)
    res = run_one(func, kwargs, rep['model'], rep['tier'])
    print(json.dumps(res, indent=1))
    return 0 if res['status'] == 'ok' else 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
