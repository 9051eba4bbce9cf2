#!/usr/bin/env python3
"""Random single-construct mutants of modred, run against every check (development aid).

  mutate.py [-j N] [-n COUNT] [-s SEED] [-f FILE] [-l]   (-l: list the mutants only)

Prints one line per mutant: the checks that reported it, or SURVIVES with the change.
"""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import json
REPO = '/repo/modred'
FILES = ['bpod.py', 'dmd.py', 'era.py', 'ltigalerkinproj.py', 'okid.py', 'parallel.py', 'pod.py', 'reductions.py',
         'util.py', 'vectors.py', 'vectorspace.py']
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '//', ast.FloorDiv: '%', ast.Pow: '*'}
SYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.FloorDiv: '//', ast.Pow: '**'}


class Gen:
    def __init__(self, f):
        self.f = f
        self.src = open(os.path.join(REPO, f)).read()
        self.tree = ast.parse(self.src)
        self.lines = self.src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = self.src.encode()
        self.out = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def rep(self, n, new, kind):
        a, b = self.span(n)
        self.out.append((self.f, n.lineno, kind, a, b, new))

    def run(self):
        for fn in ast.walk(self.tree):
            if isinstance(fn, (ast.FunctionDef,)):
                self.func(fn)
        return self.out

    def func(self, fn):
        if fn.name in ('print_msg',):
            return
        body = fn.body
        names = sorted({x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                       | {a.arg for a in fn.args.args if a.arg != 'self'})
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.stmt(s, names, fn)

    def stmt(self, s, names, fn):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print':
            return
        if isinstance(s, ast.Raise):
            return
        if isinstance(s, (ast.Expr, ast.AugAssign)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute))):
            self.rep(s, 'pass', 'drop')
        if isinstance(s, ast.If):
            self.rep(s.test, 'not (%s)' % self.seg(s.test), 'negate')
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.stmt):
                self.stmt(c, names, fn)
            elif isinstance(c, ast.ExceptHandler):
                for x in c.body:
                    self.stmt(x, names, fn)
            elif isinstance(c, ast.expr):
                self.expr(c, names)

    def expr(self, e, names):
        for n in ast.walk(e):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    self.rep(n, '%s %s %s' % (self.seg(n.left), o, self.seg(n.comparators[0])), 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', None), str):
                    continue
                self.rep(n, '(%s) %s (%s)' % (self.seg(n.left), BIN[type(n.op)], self.seg(n.right)), 'arith')
                if isinstance(n.op, (ast.Sub, ast.Div)):
                    self.rep(n, '(%s) %s (%s)' % (self.seg(n.right), SYM[type(n.op)], self.seg(n.left)), 'swap')
                self.rep(n, '(%s)' % self.seg(n.left), 'left')
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                self.rep(n, str(n.value + 1), 'const')
                if n.value > 0:
                    self.rep(n, str(n.value - 1), 'const')
            elif isinstance(n, ast.Constant) and type(n.value) is float:
                self.rep(n, repr(n.value + 1), 'const')
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                self.rep(n, str(not n.value), 'const')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                self.rep(n, '(%s)' % self.seg(n.operand), 'unary')
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                    self.rep(n, self.seg(n.func.value), 'undo-call')
                if isinstance(n.func, ast.Attribute) and len(n.args) >= 1 and n.func.attr in ('array', 'asarray', 'real', 'abs', 'squeeze', 'copy', 'deepcopy'):
                    self.rep(n, self.seg(n.args[0]), 'undo-call')
                for k in n.keywords:
                    if k.arg:
                        a, b = self.span(k.value)
                        a0 = self.b.rfind(k.arg.encode(), 0, a)
                        c = self.b.rfind(b',', 0, a0)
                        if c > 0 and not self.b[c + 1:a0].strip():
                            self.out.append((self.f, n.lineno, 'kw', c, b, ''))
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    a, b = n.args[0], n.args[1]
                    s0, e0 = self.span(a)
                    s1, e1 = self.span(b)
                    self.out.append((self.f, n.lineno, 'args', s0, e1, self.seg(b) + self.b[e0:s1].decode() + self.seg(a)))
            elif isinstance(n, ast.Slice):
                if n.lower is not None and n.upper is not None:
                    self.rep(n.lower, '(%s) + 1' % self.seg(n.lower), 'slice')
                for x in (n.lower, n.upper):
                    if x is not None:
                        self.rep(x, '', 'slice')
            elif isinstance(n, ast.Attribute) and n.attr == 'T':
                self.rep(n, self.seg(n.value), 'transpose')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                near = [x for x in names if x != n.id and (x[:3] == n.id[:3] or x[-4:] == n.id[-4:])]
                for x in near[:2]:
                    self.rep(n, x, 'name')
            elif isinstance(n, ast.BoolOp):
                for x in n.values:
                    self.rep(n, self.seg(x), 'bool')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-n', type=int, default=40)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-f')
    ap.add_argument('-l', action='store_true')
    ap.add_argument('-a', action='store_true', help='run every check, not only until the first report')
    o = ap.parse_args()
    ms = []
    for f in FILES:
        if o.f and f != o.f:
            continue
        g = Gen(f)
        ms += g.run()
    seen, uniq = set(), []
    for m in ms:
        if (m[0],) + m[3:] not in seen:
            seen.add((m[0],) + m[3:])
            uniq.append(m)
    random.Random(o.s).shuffle(uniq)
    print('%d mutants' % len(uniq), flush=True)
    checks = [x.get('property') or x['id'] for x in json.load(open('/verif/MANIFEST.json'))['checks']]
    tlock = threading.Lock()
    hits = {c: 0 for c in checks}

    def one(m):
        f, line, kind, a, b, new = m
        src = open(os.path.join(REPO, f), 'rb').read()
        res = src[:a] + new.encode() + src[b:]
        try:
            compile(res, f, 'exec')
        except SyntaxError:
            return None
        desc = '%s:%d %s: %s -> %s' % (f, line, kind, ' '.join(src[a:b].decode().split())[:60], ' '.join(new.split())[:60])
        if o.l:
            return desc
        d = tempfile.mkdtemp(prefix='mutt')
        got = []
        try:
            shutil.copytree('/repo/modred', d + '/modred', ignore=shutil.ignore_patterns('tests', '__pycache__'))
            open(os.path.join(d, 'modred', f), 'wb').write(res)
            with tlock:
                order = sorted(checks, key=lambda c: -hits[c])
            for c in order:
                try:
                    r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, SA_REPO=d, SA_NOEVID='1'),
                                       capture_output=True, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 0:
                    continue
                if rc == 1 and 'VIOLATION' in r.stdout:
                    got.append(c)
                    with tlock:
                        hits[c] += 1
                    if not o.a:
                        break
                else:
                    got.append('%s!!%s' % (c, rc))
            return '%s %s' % (' '.join(got) or 'SURVIVES', desc)
        finally:
            shutil.rmtree(d)
    k = 0
    with ThreadPoolExecutor(o.j) as ex:
        it = iter(uniq)
        import itertools
        for r in ex.map(one, itertools.islice(it, o.n)):
            if r:
                print(r, flush=True)


main()
