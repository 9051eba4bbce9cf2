#!/usr/bin/env python3
"""mut.py FILE OLD NEW [CHECK...]: run checks on a scratch copy with one textual change (development aid)."""
import os, shutil, subprocess, sys, tempfile
f, old, new = sys.argv[1:4]
checks = sys.argv[4:]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/modred', d + '/modred', ignore=shutil.ignore_patterns('tests', '__pycache__'))
    p = os.path.join(d, 'modred', f)
    s = open(p).read()
    if old not in s:
        sys.exit('pattern not found')
    if s.count(old) > 1 and not os.environ.get('ALL'):
        k = int(os.environ.get('NTH', '1'))
        parts = s.split(old)
        s = old.join(parts[:k]) + new + old.join(parts[k:])
    else:
        s = s.replace(old, new)
    open(p, 'w').write(s)
    for c in checks:
        r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
        print(c, 'exit', r.returncode)
        lines = [l for l in r.stdout.splitlines()]
        print('\n'.join('   ' + l[:300] for l in lines[:6]))
finally:
    shutil.rmtree(d)
