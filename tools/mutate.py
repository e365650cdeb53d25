#!/usr/bin/env python3
"""mutate.py OUT.jsonl N SEED [FILE...]: N random mutants of the files of /repo
that pass the tests; runs the checks of the properties anchored in the file
on each until one catches it.  For finding holes; not part of any check."""
import ast
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, HERE)
WORK = '/tmp/mutwork%d' % os.getpid()
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}


def offsets(src):
    out, n = [0], 0
    for line in src.encode().split(b'\n'):
        n += len(line) + 1
        out.append(n)
    return out


def mutants(src):
    tree = ast.parse(src)
    off = offsets(src)
    b = src.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield span(n), '%s %s %s' % (
                text(n.left), CMP[type(n.ops[0])], text(n.comparators[0]))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield span(n), op.join('(%s)' % text(v) for v in n.values)
            for v in n.values:
                rest = [w for w in n.values if w is not v]
                op2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                yield span(n), '(' + op2.join(
                    '(%s)' % text(w) for w in rest) + ')'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield span(n), '(%s)' % text(n.operand)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add,
                                                            ast.Sub)):
            op = '-' if isinstance(n.op, ast.Add) else '+'
            yield span(n), '%s %s %s' % (text(n.left), op, text(n.right))
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                yield span(n), str(not n.value)
            elif isinstance(n.value, int):
                yield span(n), str(n.value + 1)
                yield span(n), '(%d)' % (n.value - 1)
            elif isinstance(n.value, str) and 1 < len(n.value) < 40 and \
                    text(n)[0] in '\'"' and n.lineno == n.end_lineno:
                yield span(n), repr(n.value[0:-1])
                yield span(n), repr(n.value[1:])
        elif isinstance(n, (ast.If, ast.While)):
            yield span(n.test), 'False'
            if isinstance(n, ast.If):
                yield span(n.test), 'True'
        elif isinstance(n, ast.Expr) and n.value not in docs and \
                not isinstance(n.value, ast.Yield):
            yield span(n), 'pass'
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset > 4:
            yield span(n), 'pass'
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                yield span(n), text(n.lower) + ':'
        elif isinstance(n, ast.Break):
            yield span(n), 'pass'
        elif isinstance(n, ast.Continue):
            yield span(n), 'pass'


def sh(cmd, timeout=900, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, timeout=timeout,
                              stderr=subprocess.STDOUT, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        class R(object):
            returncode = 124
            stdout = str(e.stdout)
        return R


def main():
    from props_data import ALL
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:]
    rnd = random.Random(seed)
    if not os.path.isdir(WORK):
        subprocess.check_call(['cp', '-a', '/repo', WORK])
    pool = []
    for f in files:
        src = open(os.path.join('/repo', f)).read()
        for (s, e), new in mutants(src):
            pool.append((f, s, e, new))
    rnd.shuffle(pool)
    done = 0
    tim = json.load(open('/tmp/timing.json')) if os.path.exists(
        '/tmp/timing.json') else {}
    for f, s, e, new in pool:
        if done >= count:
            break
        path = os.path.join(WORK, f)
        orig = open(os.path.join('/repo', f)).read().encode()
        b = orig[:s] + new.encode() + orig[e:]
        try:
            compile(b, f, 'exec')
        except (SyntaxError, ValueError):
            continue
        open(path, 'wb').write(b)
        try:
            r = sh(['/usr/bin/pypy3', '-m', 'unittest', 'discover',
                    '--pattern=test_*.py'],
                   cwd=WORK, timeout=60,
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                            PYTHONHASHSEED='0', LANG='C.UTF-8'))
            if r.returncode:
                continue
            done += 1
            ids = [p['id'] for p in ALL if f in p['files']]
            ids.sort(key=lambda i: tim.get(i, 30))
            got = {}
            for i in ids:
                r = sh([TOP + '/check', i, 'quick'],
                       env=dict(os.environ, SX_REPO=WORK, SX_BUDGET='300'))
                got[i] = r.returncode
                if r.returncode == 1:
                    break
            line = orig[:s].count(b'\n') + 1
            rec = dict(file=f, line=line, old=orig[s:e].decode(), new=new,
                       caught=[i for i in got if got[i] == 1],
                       other=[i for i in got if got[i] not in (0, 1)],
                       src=orig.decode().split('\n')[line - 1].strip())
            with open(out, 'a') as o:
                o.write(json.dumps(rec) + '\n')
        finally:
            open(path, 'wb').write(orig)
    subprocess.call(['rm', '-rf', WORK])


main()
