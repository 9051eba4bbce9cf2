#!/usr/bin/env python3
"""Random behaviour-preserving rewrites of /repo: no check may report.

  rewrite.py [-n COUNT] [-s SEED] [-p PROBABILITY] [-r RULE,…] [-f FILE,…] [-c CHECK,…] [-j N] [-t] [-k DIR]

Each variant rewrites the files (default: one file picked at random) with syntax-tree
rules, applied at every site with the given probability.  -t also runs the stable
tests on the variant; -k keeps reporting variants in DIR.
"""
import warnings
warnings.simplefilter('ignore')
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
FILES = ['bpod.py', 'dmd.py', 'era.py', 'ltigalerkinproj.py', 'okid.py', 'parallel.py', 'pod.py', 'reductions.py', 'util.py',
         'vectors.py', 'vectorspace.py']


def np_(name, *args, **kw):
    return ast.Call(ast.Attribute(ast.Name('np', ast.Load()), name, ast.Load()), list(args), [ast.keyword(k, v) for k, v in kw.items()])


def load(n):
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return n


def isnp(n, *names):
    return (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and
            n.func.value.id == 'np' and n.func.attr in names)


def meth(n, name, nargs=0):
    return (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name and len(n.args) == nargs and
            not n.keywords and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy')))


class Rules(ast.NodeTransformer):
    def __init__(self, rnd, p, only, numpy):
        self.rnd, self.p, self.only, self.numpy = rnd, p, only, numpy
        self.used, self.n = {}, 0
        self.loops, self.depth = 0, 0

    def go(self, rule):
        if self.only and rule not in self.only:
            return False
        if self.rnd.random() >= self.p:
            return False
        self.used[rule] = self.used.get(rule, 0) + 1
        return True

    def fresh(self, base='tmp'):
        self.n += 1
        return '%s_%d' % (base, self.n)

    # expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        if meth(n, 'dot', 1) and self.numpy:
            a, b = n.func.value, n.args[0]
            if isnp(b, 'diag') and len(b.args) == 1 and not isnp(a, 'diag') and self.go('timesdiag'):
                return ast.BinOp(a, ast.Mult(), b.args[0])
            if self.go('dot'):
                return self.rnd.choice([lambda: np_('dot', a, b), lambda: ast.BinOp(a, ast.MatMult(), b), lambda: np_('matmul', a, b)])()
        if meth(n, 'conj') and self.numpy and self.go('conj'):
            a = n.func.value
            return self.rnd.choice([lambda: np_('conj', a), lambda: np_('conjugate', a),
                                    lambda: ast.Call(ast.Attribute(a, 'conjugate', ast.Load()), [], [])])()
        if isnp(n, 'zeros') and len(n.args) == 1 and self.go('zeros'):
            return np_('full', n.args[0], ast.Constant(0.), **{k.arg: k.value for k in n.keywords}) if n.keywords else np_('zeros', n.args[0], dtype=ast.Name('float', ast.Load()))
        if isnp(n, 'array') and len(n.args) == 1 and not n.keywords and self.go('copy'):
            return np_('array', n.args[0], copy=ast.Constant(True))
        if isnp(n, 'abs') and self.go('abs'):
            return self.rnd.choice([lambda: np_('absolute', *n.args), lambda: ast.Call(ast.Name('abs', ast.Load()), n.args, [])])()
        if isnp(n, 'vstack') and len(n.args) == 1 and self.go('stack'):
            return np_('concatenate', n.args[0], axis=ast.Constant(0))
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == 'T' and isinstance(n.ctx, ast.Load) and self.numpy:
            a = n.value
            if meth(a, 'conj') and self.go('herm'):
                return ast.Call(ast.Attribute(ast.Attribute(a.func.value, 'T', ast.Load()), 'conj', ast.Load()), [], [])
            if self.go('T'):
                return self.rnd.choice([lambda: np_('transpose', a), lambda: ast.Call(ast.Attribute(a, 'transpose', ast.Load()), [], [])])()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and self.numpy:
            e, s = n.right, 1
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
                e, s = e.operand, -1
            v = s * e.value if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) else None
            one = ast.Constant(1.)
            if v in (0.5, -0.5, -1, 2) and self.go('power'):
                return {0.5: lambda: np_('sqrt', n.left), -0.5: lambda: ast.BinOp(one, ast.Div(), np_('sqrt', n.left)),
                        -1: lambda: ast.BinOp(one, ast.Div(), n.left), 2: lambda: np_('power', n.left, n.right)}[v]()
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o, l, r = n.ops[0], n.left, n.comparators[0]
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            neg = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            if type(o) in flip and self.go('flip'):
                return ast.Compare(r, [flip[type(o)]()], [l])
            if type(o) in neg and self.go('negate'):
                return ast.UnaryOp(ast.Not(), ast.Compare(l, [neg[type(o)]()], [r]))
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.go('demorgan'):
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(),
                                                     [ast.UnaryOp(ast.Not(), v) for v in n.values]))
        return n

    # the value of and/or is not a boolean where it is returned
    def visit_Return(self, n):
        if n.value is not None and isinstance(n.value, ast.BoolOp):
            return n
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and self.go('result'):
            t = self.fresh('result')
            return [ast.Assign([ast.Name(t, ast.Store())], n.value), ast.Return(ast.Name(t, ast.Load()))]
        return n

    # statements
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and self.go('invert'):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.go('nestif'):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        if self.go('iftemp') and not any(isinstance(x, (ast.Name)) and x.id == '__name__' for x in ast.walk(n.test)):
            t = self.fresh('cond')
            return [ast.Assign([ast.Name(t, ast.Store())], n.test), ast.If(ast.Name(t, ast.Load()), n.body, n.orelse)]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) != 1 or not self.depth:
            return n
        t = n.targets[0]
        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Call) and all(isinstance(x, (ast.Name, ast.Attribute)) for x in t.elts) and self.go('unpack'):
            v = self.fresh('values')
            return [ast.Assign([ast.Name(v, ast.Store())], n.value)] + [
                ast.Assign([x], ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(i), ast.Load())) for i, x in enumerate(t.elts)]
        if isinstance(t, ast.Attribute) and not isinstance(n.value, (ast.Name, ast.Constant)) and self.go('attrtemp'):
            v = self.fresh('value')
            return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Assign([t], ast.Name(v, ast.Load()))]
        if isinstance(n.value, ast.IfExp) and self.go('ifexp'):
            return ast.If(n.value.test, [ast.Assign([t], n.value.body)], [ast.Assign([copy.deepcopy(t)], n.value.orelse)])
        if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and isinstance(t, ast.Name) and \
                not any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)) and self.go('explode'):
            g = n.value.generators[0]
            v = n.value
            # the comprehension's variables are its own
            for x in [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]:
                y = self.fresh(x)
                for z in ast.walk(v):
                    if isinstance(z, ast.Name) and z.id == x:
                        z.id = y
            body = [ast.Expr(ast.Call(ast.Attribute(load(t), 'append', ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([t], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        if isinstance(n.value, ast.Call) and n.value.args and not n.value.keywords and isinstance(t, ast.Name) and self.go('argtemp'):
            # name the first argument: it is evaluated right after the function expression
            a = n.value.args[0]
            if not isinstance(a, (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)) and isinstance(n.value.func, (ast.Name, ast.Attribute)) and not any(
                    isinstance(x, ast.Call) for x in ast.walk(n.value.func)):
                v = self.fresh('arg')
                n.value.args[0] = ast.Name(v, ast.Load())
                return [ast.Assign([ast.Name(v, ast.Store())], a), n]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and isinstance(n.target, ast.Tuple) and \
                len(n.iter.args) == 1 and isinstance(n.target.elts[0], ast.Name) and self.go('unenumerate'):
            i = n.target.elts[0]
            seq = self.fresh('items')
            return [ast.Assign([ast.Name(seq, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [n.iter.args[0]], [])),
                    ast.For(i, ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(seq, ast.Load())], [])], []),
                            [ast.Assign([n.target.elts[1]], ast.Subscript(ast.Name(seq, ast.Load()), load(i), ast.Load()))] + n.body, [])]
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and isinstance(n.target, ast.Name) and \
                len(n.iter.args) in (1, 2) and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(n)) and \
                not any(isinstance(x, ast.Name) and x.id == n.target.id and isinstance(x.ctx, ast.Store) for s in n.body for x in ast.walk(s)) and self.go('while'):
            lo = n.iter.args[0] if len(n.iter.args) == 2 else ast.Constant(0)
            hi = n.iter.args[-1]
            i, e = self.fresh('i'), self.fresh('end')
            return [ast.Assign([ast.Name(i, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                              [ast.Assign([n.target], ast.Name(i, ast.Load()))] + n.body +
                              [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        # if c: return/raise … ; rest  ->  if c: … else: rest
        out = []
        for k, s in enumerate(n.body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(n.body) and self.go('else'):
                s.orelse = n.body[k + 1:]
                out.append(s)
                break
            out.append(s)
        n.body = out
        for x in ast.walk(n):
            for fld in ('body', 'orelse'):
                b = getattr(x, fld, None)
                if isinstance(b, list):
                    self.reorder(b)
                    setattr(x, fld, self.collect(b))
        return n

    def pure(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in ('len', 'min', 'max', 'int', 'list', 'range', 'abs', 'float'):
                    continue
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np':
                    continue
                if isinstance(f, ast.Attribute) and f.attr.startswith('get_num') or isinstance(f, ast.Attribute) and f.attr in ('get_rank', 'dot', 'conj'):
                    continue
                return False
            if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr, ast.Subscript, ast.Div, ast.FloorDiv)):
                return False
        return True

    # two neighbouring assignments that do not concern each other change places
    def reorder(self, b):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and self.pure(x.value) for x in (s, t)):
                n, m = s.targets[0].id, t.targets[0].id
                use = lambda v: {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                if n != m and n not in use(t.value) and m not in use(s.value) and self.go('reorder'):
                    b[i], b[i + 1] = t, s

    # x = []; for v in it: x.append(e)  ->  x = [e for v in it]
    def collect(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.target, ast.Name) and isinstance(p, ast.Assign) and \
                    len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.List) and not p.value.elts:
                e = s.body[0].value if isinstance(s.body[0], ast.Expr) else None
                x = p.targets[0].id
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'append' and isinstance(e.func.value, ast.Name) and \
                        e.func.value.id == x and not any(isinstance(y, ast.Name) and y.id == x for a in [s.iter] + e.args for y in ast.walk(a)) and self.go('collect'):
                    out[-1] = ast.Assign(p.targets, ast.ListComp(e.args[0], [ast.comprehension(s.target, s.iter, [], 0)]))
                    continue
            out.append(s)
        return out

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        return n


class Wrap(object):
    """Module level functions and methods get their body from a helper."""
    def __init__(self, r):
        self.r = r

    def args(self, a, skip=0):
        pos = [ast.Name(x.arg, ast.Load()) for x in a.args[skip:]]
        if a.vararg:
            pos.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
        if a.kwarg:
            kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        return pos, kw

    def body(self, body, cls):
        out = []
        for n in body:
            if isinstance(n, ast.ClassDef):
                n.body = self.body(n.body, n)
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and not (n.name.startswith('__')) and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) or (isinstance(x, ast.Name) and x.id == 'super') for x in ast.walk(n)) and self.r.go('wrap'):
                m = copy.deepcopy(n)
                m.name = '_do_%s_%s' % (n.name.strip('_'), 'u' if n.name.startswith('_') else 'p')
                m.args.defaults, m.args.kw_defaults = [], [None] * len(m.args.kwonlyargs)
                pos, kw = self.args(n.args, 1 if cls else 0)
                f = ast.Attribute(ast.Name(n.args.args[0].arg, ast.Load()), m.name, ast.Load()) if cls else ast.Name(m.name, ast.Load())
                doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
                n.body = doc + [ast.Return(ast.Call(f, pos, kw))]
                out.append(m)
            out.append(n)
        return out


class Outline(object):
    """Consecutive statements of a function body become a helper: a module level function, or a method."""
    def __init__(self, r):
        self.r = r

    def module(self, tree):
        out = []
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                self.function(n, out, None)
            elif isinstance(n, ast.ClassDef):
                for m in list(n.body):
                    if isinstance(m, ast.FunctionDef) and m.args.args and m.args.args[0].arg == 'self':
                        self.function(m, out, n)
            out.append(n)
        tree.body = out

    def function(self, f, out, cls):
        if f.decorator_list or len(f.body) < 3 or not self.r.go('outline'):
            return
        local = {a.arg for a in f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        stored = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        lo = self.r.rnd.randrange(0 if not isinstance(f.body[0], ast.Expr) else 1, len(f.body) - 1)
        hi = self.r.rnd.randrange(lo + 1, len(f.body))
        part = f.body[lo:hi]
        bad = (ast.Return, ast.Yield, ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.Import, ast.ImportFrom, ast.Break, ast.Continue)
        if any(isinstance(x, bad) for s in part for x in ast.walk(s)) or any(isinstance(x, (ast.Lambda, ast.FunctionDef)) for s in f.body for x in ast.walk(s)):
            return
        if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') for s in part for x in ast.walk(s)):
            return
        sure = set()
        for s in part:
            if isinstance(s, ast.Assign):
                sure |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        before = set(local)
        for s in f.body[:lo]:
            if isinstance(s, ast.Assign):
                before |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        maybe = {x.id for s in f.body[:lo] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - before
        stores = {x.id for s in part for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        loads = {x.id for s in part for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}
        loads |= {s.target.id for p in part for s in ast.walk(p) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}
        later = {x.id for s in f.body[hi:] for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}
        later |= {s.target.id for p in f.body[hi:] for s in ast.walk(p) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}
        if loads & maybe or (stores & later) - sure - before:
            return
        ins = sorted((loads & (before | local)) | ((stores & later) - sure))
        if 'self' in ins:
            ins.remove('self')
            ins.insert(0, 'self')
        outs = sorted(stores & later)
        self.r.n += 1
        name = '_part_%d_of_%s' % (self.r.n, f.name.strip('_'))
        nm = lambda x, c=ast.Load: ast.Name(x, c())
        ret = [ast.Return(nm(outs[0]) if len(outs) == 1 else ast.Tuple([nm(x) for x in outs], ast.Load()))] if outs else []
        method = cls is not None and ins[:1] == ['self'] and self.r.rnd.random() < 0.5
        call = ast.Call(ast.Attribute(nm('self'), name, ast.Load()) if method else nm(name), [nm(x) for x in ins[1 if method else 0:]], [])
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), part + ret, [], lineno=1)
        tgt = [nm(outs[0], ast.Store) if len(outs) == 1 else ast.Tuple([nm(x, ast.Store) for x in outs], ast.Store())] if outs else None
        f.body[lo:hi] = [ast.Assign(tgt, call) if outs else ast.Expr(call)]
        if method:
            cls.body.insert(cls.body.index(f), h)
        else:
            out.append(h)
        self.r.used['outlined'] = self.r.used.get('outlined', 0) + 1


def variant(seed, p, only, files):
    rnd = random.Random(seed)
    if not files:
        files = [rnd.choice(FILES)]
    t = tempfile.mkdtemp(prefix='rewr')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % t, shell=True, check=True)
    used = {}
    for f in files:
        path = os.path.join(t, 'modred', f)
        src = open(path).read()
        tree = ast.parse(src)
        r = Rules(rnd, p, only, 'import numpy as np' in src)
        tree = r.visit(tree)
        if not only or 'outline' in only:
            Outline(r).module(tree)
        if not only or 'wrap' in only:
            r.p = p / 2
            tree.body = Wrap(r).body(tree.body, None)
        ast.fix_missing_locations(tree)
        open(path, 'w').write(ast.unparse(tree) + '\n')
        compile(open(path).read(), path, 'exec')
        for k, v in r.used.items():
            used[k] = used.get(k, 0) + v
    return t, files, used


def main():
    import getopt
    o = dict(getopt.getopt(sys.argv[1:], 'n:s:p:r:f:c:j:tk:')[0])
    n, s, p, j = int(o.get('-n', 10)), int(o.get('-s', 0)), float(o.get('-p', 0.3)), int(o.get('-j', 8))
    only = o['-r'].split(',') if '-r' in o else None
    files = o['-f'].split(',') if '-f' in o else None
    checks = o['-c'].split(',') if '-c' in o else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]

    def one(pid, t):
        e = dict(os.environ, SA_REPO=t, SA_NOEVID='1', VERIF_TIER='quick')
        try:
            r = subprocess.run([sys.executable, V + '/check.py', pid], env=e, text=True, capture_output=True, timeout=900)
        except subprocess.TimeoutExpired:
            return pid, 'timeout', ''
        return pid, r.returncode, r.stdout + r.stderr

    with ThreadPoolExecutor(j) as ex:
        for k in range(s, s + n):
            t, fs, used = variant(k, p, only, files)
            rs = list(ex.map(lambda c: one(c, t), checks))
            bad = [(c, rc, out) for c, rc, out in rs if rc != 0]
            print('seed %d %s %s %s' % (k, ','.join(fs), 'ALARM' if bad else 'quiet', ' '.join('%s:%d' % x for x in sorted(used.items()))), flush=True)
            for c, rc, out in bad:
                print('    %s %s %s' % (c, rc, ' | '.join(l.strip() for l in out.splitlines() if ' at modred/' in l)[:400]), flush=True)
            if '-t' in o:
                r = subprocess.run('cd %s && /opt/venv/bin/python -W ignore -m pytest -q -x modred/tests 2>&1 | tail -5' % t, shell=True, text=True, capture_output=True)
                print(r.stdout, flush=True)
            if bad and '-k' in o:
                shutil.copytree(t, os.path.join(o['-k'], 's%d' % k), dirs_exist_ok=True)
            shutil.rmtree(t)


if __name__ == '__main__':
    main()
