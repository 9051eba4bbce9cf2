#!/usr/bin/env python3
"""Run every check on behaviour-preserving edits of /repo: none may report.

  preserve.py [-j N] [-c CHECK,…] [NAME…]

Each file tools/preserved/NAME.py holds EDITS = [(file, old, new), …] with paths
relative to modred/.  The edits are applied to a scratch copy of /repo, and the
checks that exit nonzero are printed, with the number of undecided obligations
they gained or lost with respect to the unchanged tree.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'


def checks():
    m = json.load(open(V + '/MANIFEST.json'))
    return [c['property'] for c in m['checks']]


def copy(edits):
    t = tempfile.mkdtemp(prefix='pres')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % t, shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(t, 'modred', f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches of %r' % (f, s.count(old), old[:200]))
        open(p, 'w').write(s.replace(old, new))
        import warnings
        warnings.simplefilter("ignore")
        compile(open(p).read(), p, "exec")
    return t


def one(pid, t):
    e = dict(os.environ, SA_REPO=t, SA_NOEVID='1', VERIF_TIER='quick')
    try:
        r = subprocess.run([sys.executable, V + '/check.py', pid], env=e, text=True,
                           capture_output=True, timeout=900)
    except subprocess.TimeoutExpired:
        return pid, 'timeout', None, ''
    out = r.stdout + r.stderr
    m = re.search(r'(\d+) obligations discharged, (\d+) undecided', out)
    return pid, r.returncode, (int(m.group(1)), int(m.group(2))) if m else None, out


def main():
    a = sys.argv[1:]
    jobs, only = 8, None
    while a and a[0].startswith('-'):
        o = a.pop(0)
        if o == '-j':
            jobs = int(a.pop(0))
        elif o == '-c':
            only = a.pop(0).split(',')
    d = V + '/tools/preserved'
    names = a or sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py'))
    todo = only or checks()
    trees = {None: copy([])}
    for n in names:
        ns = {}
        exec(open('%s/%s.py' % (d, n)).read(), ns)
        trees[n] = copy(ns['EDITS'])
    try:
        with ThreadPoolExecutor(jobs) as ex:
            base = {p: u for p, rc, u, out in ex.map(lambda p: one(p, trees[None]), todo)}
            for n in names:
                bad, und = [], []
                for pid, rc, u, out in ex.map(lambda p: one(p, trees[n]), todo):
                    if rc != 0:
                        bad.append('%s:%s' % (pid, rc))
                        open('/tmp/pres_%s_%s.log' % (n, pid), 'w').write(out)
                    if u and u != base[pid]:
                        und.append('%s %d/%d' % (pid, u[1] - base[pid][1], base[pid][0]))
                print(n, 'QUIET' if not bad else 'ALARM ' + ' '.join(bad),
                      ('| undecided more ' + ', '.join(und)) if und else '', flush=True)
    finally:
        for t in trees.values():
            shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    main()
