#!/usr/bin/env python3
"""replant.py [ID...]: runs the checks on all planted bugs again (and the
demonstrations) in scratch copies."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
res = HERE + '/seeded_results.json'
data = json.load(open(res)) if os.path.exists(res) else {}
ids = sys.argv[1:] or sorted(os.listdir(TOP + '/seeded'))
for i in ids:
    d = TOP + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        copy = tmp + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', copy])
        a = subprocess.run(['sh', d + '/demo.sh'], cwd=copy,
                           capture_output=True).returncode
        subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=copy)
        b = subprocess.run(['sh', d + '/demo.sh'], cwd=copy,
                           capture_output=True).returncode
        t = subprocess.run(
            ['/usr/bin/pypy3', '-B', '-m', 'unittest', 'discover',
             '--pattern=test_*.py'], cwd=copy, text=True,
            capture_output=True).stderr.strip().split('\n')[-1]
        c = subprocess.run([TOP + '/check', prop, 'quick'], text=True,
                           env=dict(os.environ, SX_REPO=copy),
                           capture_output=True)
        data[i] = {0: 'missed', 1: 'caught'}.get(c.returncode, 'error')
        print(i, prop, 'demo %d/%d' % (a, b), t, data[i], flush=True)
    finally:
        shutil.rmtree(tmp)
for i in list(data):
    if not os.path.exists(TOP + '/seeded/' + i):
        del data[i]
with open(res, 'w') as f:
    json.dump(data, f, indent=1, sort_keys=True)
    f.write('\n')
