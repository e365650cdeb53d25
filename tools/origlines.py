#!/usr/bin/env python3
"""origlines.py BASE [id...]: which seeded patches change lines that were not
in the original repository (BASE = the original commit)."""
import os
import re
import subprocess
import sys
base = sys.argv[1]
seeded = '/verif/seeded'
for id_ in sys.argv[2:] or sorted(os.listdir(seeded)):
    path = os.path.join(seeded, id_, 'patch.diff')
    if not os.path.exists(path):
        print(id_, 'no patch')
        continue
    fname, own, orig = None, [], 0
    for line in open(path):
        if line.startswith('--- a/'):
            fname = line[6:].strip()
            blame = subprocess.run(
                ['git', '-C', '/repo', 'blame', '-s', '--root', '-l',
                 base + '..HEAD', '--', fname],
                stdout=subprocess.PIPE, text=True).stdout.split('\n')
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            if blame[n - 1].startswith('^'):
                orig += 1
            elif line[1:].strip():
                own.append((fname, n, line[1:].strip()[:60]))
            n += 1
        elif line.startswith(' '):
            n += 1
    print(id_, 'original:', orig, 'own:', own)
