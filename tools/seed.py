#!/usr/bin/env python3
"""Make and verify planted bugs.

  seed.py add ID < SPEC      SPEC is a Python dict: prop, edits=[(file, old, new)],
                             demo (Python source), np (0: serial, n: mpiexec -n n),
                             needs, breaks
  seed.py verify ID...       clean demo / patched build / demo / stable tests, each in
                             a scratch copy of /repo
  seed.py checks ID [CHECK…] which registered checks report the patch
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
REPO = '/repo'
# fails on the unchanged tree on some processors
NOISY = ['modred.tests.testera.testERA::test_compute_model']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def add(sid):
    spec = eval(sys.stdin.read())
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix='seed') as t:
        sh('git -C %s archive HEAD | tar x -C %s' % (REPO, t))
        sh('cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % t)
        for f, old, new in spec['edits']:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % t).stdout
    assert diff
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
    run = '/opt/venv/bin/python -W ignore "$here/demo.py"'
    if spec.get('np'):
        run = ('timeout -k 5 %d /opt/venv/bin/mpiexec -launcher fork -n %d '
               % (spec.get('timeout', 100), spec['np']) + run)
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# exit 0: the property holds; nonzero: it does not\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n'
        'export PYTHONPATH="$PWD"\n'
        'work=$(mktemp -d) || exit 99\ntrap \'rm -rf "$work"\' EXIT\ncd "$work" || exit 99\n'
        + run + '\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': spec['prop'], 'needs': spec['needs'],
               'what_it_breaks': spec['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def verify(sid):
    d = os.path.join(V, 'seeded', sid)
    w = tempfile.mkdtemp(prefix='seedv')
    try:
        sh('cp -a %s %s/repo' % (REPO, w))
        r = w + '/repo'
        os.makedirs(w + '/vp')
        for f in ('build.sh', 'test.sh', 'mpi_tests.py', 'mpi_abort.py', 'results.py'):
            s = open('/opt/vp/' + f).read().replace('/repo', r)
            s = s.replace('unset PYTHONPATH', 'export PYTHONPATH=' + r)
            s = s.replace('/opt/vp/cache', w + '/cache').replace('/opt/vp', w + '/vp')
            open(w + '/vp/' + f, 'w').write(s)
        shutil.copytree(d, w + '/demo')
        a = sh('bash %s/demo/demo.sh' % w, cwd=r, timeout=300)
        p = sh('git -C %s apply %s/patch.diff' % (r, d))
        if p.returncode:
            return sid, 'PATCH DOES NOT APPLY ' + p.stdout
        b = sh('bash %s/vp/build.sh' % w)
        c = sh('bash %s/demo/demo.sh' % w, cwd=r, timeout=300)
        t = sh('bash %s/vp/test.sh %s/out.json' % (w, w))
        out = json.load(open(w + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        lost = [x for x in base if x not in set(out['passed']) and x not in NOISY]
        ok = a.returncode == 0 and b.returncode == 0 and c.returncode != 0 and not lost
        return sid, '%s clean=%d build=%d patched=%d lost=%s\n%s\n---\n%s' % (
            'OK' if ok else 'BAD', a.returncode, b.returncode, c.returncode, lost,
            a.stdout[-300:] if a.returncode else '', c.stdout[-400:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def checks(sid, names):
    d = os.path.join(V, 'seeded', sid)
    w = tempfile.mkdtemp(prefix='seedc')
    try:
        sh('git -C %s archive HEAD | tar x -C %s' % (REPO, w))
        p = sh('cd %s && git init -q . && git apply %s/patch.diff' % (w, d))
        assert p.returncode == 0, p.stdout
        man = json.load(open(V + '/MANIFEST.json'))
        ids = names or [c['property'] for c in man['checks']]
        def one(i):
            r = sh('python3 %s/check.py %s' % (V, i), env=dict(os.environ, SA_REPO=w, SA_NOEVID='1'), cwd=V)
            return i, r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOL')]
        with ThreadPoolExecutor(8) as ex:
            return [(i, l) for i, rc, l in ex.map(one, ids) if rc]
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'add':
        add(sys.argv[2])
    elif cmd == 'verify':
        with ThreadPoolExecutor(3) as ex:
            for sid, msg in ex.map(verify, sys.argv[2:]):
                print(sid, msg, flush=True)
    elif cmd == 'checks':
        for s in sys.argv[2].split(','):
            m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))['property']
            c = checks(s, sys.argv[3:])
            print(s, 'target', m, 'CAUGHT' if any(i == m for i, _ in c) else 'missed', c, flush=True)
