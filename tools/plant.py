#!/usr/bin/env python3
"""plant.py SPEC.py...: plants the bugs of the spec in a scratch copy of /repo,
verifies them and runs the check of the property on the copy.

SPEC: a python file with BUGS = [dict(id, property, file, old, new, demo,
needs, breaks)] (file/old/new may be lists)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
from asterisklint import FileDialplanParser
from asterisklint.defines import MessageDefManager as M


class Mem(object):
    mode = 'rb'

    def __init__(self, name, lines):
        self.name, self.lines = name, lines

    def __iter__(self):
        return iter(self.lines)

    def close(self):
        pass


def load(*lines, **files):
    """Reads the dialplan; files are includes."""
    M.reset()
    files['m'] = lines
    parser = FileDialplanParser(opener=(lambda n: Mem(n, [
        i if isinstance(i, bytes) else i.encode('utf-8') + b'\\n'
        for i in files[n]])))
    parser.include('m')
    return list(parser)[0]


def plan(*lines, **files):
    return load('[general]', '[globals]', *lines, **files)


def said(prefix=''):
    return [(n, m.where.lineno) for n in sorted(M.raised)
            for m in M.raised[n] if n.startswith(prefix)]


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy):
    """Run the stable tests of the copy."""
    code = '''
import sys, json, subprocess
'''
    out = sh(['/usr/bin/pypy3', '-m', 'unittest', 'discover',
              '--pattern=test_*.py'], cwd=copy,
             env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                      PYTHONHASHSEED='0', LANG='C.UTF-8'), timeout=300)
    return out.stdout.strip().split('\n')[-1], out.stdout


def main():
    todo = []
    only = None
    for arg in sys.argv[1:]:
        if arg.startswith('--only='):
            only = arg[7:].split(',')
            continue
        ns = {}
        exec(open(arg).read(), ns)
        todo += ns['BUGS']
    for bug in todo:
        if only and bug['id'] not in only:
            continue
        copy = tempfile.mkdtemp(prefix='plant')
        try:
            one(bug, copy + '/repo')
        finally:
            shutil.rmtree(copy)


def one(bug, copy):
    sh(['git', 'clone', '-q', '/repo', copy])
    files = bug['file'] if isinstance(bug['file'], list) else [bug['file']]
    olds = bug['old'] if isinstance(bug['old'], list) else [bug['old']]
    news = bug['new'] if isinstance(bug['new'], list) else [bug['new']]
    if len(files) < len(olds):
        files = files * len(olds)
    dest = '/verif/seeded/' + bug['id']
    os.makedirs(dest, exist_ok=True)
    with open(dest + '/demo.py', 'w') as f:
        f.write((HEAD if bug.get('head', True) else
                 'import os\nimport sys\nsys.path.insert(0, os.getcwd())\n') +
                bug['demo'].strip('\n') + '\n')
    with open(dest + '/demo.sh', 'w') as f:
        f.write('#!/bin/sh\nexec pypy3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(dest + '/demo.sh', 0o755)
    with open(dest + '/meta.json', 'w') as f:
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, f, indent=1)
        f.write('\n')
    a = sh(['sh', dest + '/demo.sh'], cwd=copy)
    for name, old, new in zip(files, olds, news):
        text = open(copy + '/' + name).read()
        if text.count(old) != 1:
            print(bug['id'], 'OLD TEXT FOUND', text.count(old))
            return
        with open(copy + '/' + name, 'w') as f:
            f.write(text.replace(old, new))
    diff = sh(['git', 'diff'], cwd=copy).stdout
    with open(dest + '/patch.diff', 'w') as f:
        f.write(diff)
    # only lines of the original
    b = sh(['sh', dest + '/demo.sh'], cwd=copy)
    last, full = tests(copy)
    c = sh(['/verif/check', bug['property'], 'quick'],
           env=dict(os.environ, SX_REPO=copy))
    print('%-28s demo %d/%d tests=%s check=%d %s' % (
        bug['id'], a.returncode, b.returncode, last, c.returncode,
        '' if a.returncode == 0 and b.returncode else '<<< BAD DEMO'))
    if a.returncode:
        print(a.stdout[-600:])
    if not b.returncode:
        print(b.stdout[-600:])
    if 'FAILED' in last and not bug.get('noshow'):
        print('\n'.join([l for l in full.split('\n')
                        if l.startswith(('FAIL', 'ERROR'))][:4]))
    print('   ', '\n    '.join(l[:200] for l in c.stdout.split('\n')
                               if 'VIOLATION' in l or c.returncode == 2)[:900])
    res = HERE + '/seeded_results.json'
    data = json.load(open(res)) if os.path.exists(res) else {}
    data[bug['id']] = {0: 'missed', 1: 'caught'}.get(c.returncode, 'error')
    with open(res, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write('\n')
    sys.stdout.flush()


main()
