#!/usr/bin/env python3
"""Development aid: mut.py FILE OLD NEW FNS [n-th occurrence] - replace text in a scratch copy of /repo and verify FNS there."""
import sys, subprocess, shutil, tempfile, os
f, old, new, fns = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
d = tempfile.mkdtemp(prefix='mut'); r = d + '/repo'
shutil.copytree('/repo', r, symlinks=True)
s = open(r + '/' + f).read()
i = -1
for _ in range(n):
    i = s.index(old, i + 1)
s = s[:i] + new + s[i + len(old):]
open(r + '/' + f, 'w').write(s)
o = subprocess.run(['/verif/bin/engine', '-repo', r, '-fn', fns], capture_output=True, text=True).stdout
for l in o.splitlines():
    if 'hints' not in l: print(l[:220])
shutil.rmtree(d)
