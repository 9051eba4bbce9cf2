"""P10: how many vectors a process holds."""
import ast
import math
from ..par import *
from ..report import prop
from ..poly import Poly
from ..lin import Facts
from ..arr import Lst, Opq, Unk, ZERO, ONE, K
from .tiles import (Model, Nest, Bad, Empty, analyse, array_stores, chain, contributions, covered, empty_ok, ensure, enter, every_case, guard_false,
                    pass_loop, prims_in, strip_scalar, MVP, PN, PR, SRC)

VSH = 'vectorspace.VectorSpaceHandles'


# ---- the limit itself
class Num(object):
    """Exact evaluation of an arithmetic term for given numbers."""

    def __init__(self, env):
        self.env = env

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        o, a = t.op, t.args
        if o == 'const':
            return a[0]
        if o == 'phi':
            return self(a[1] if self(a[0]) else a[2])
        if o == 'cmp':
            x, y = self(a[1]), self(a[2])
            if a[0] == '<':
                return x < y
            if a[0] == '==':
                return x == y
            if a[0] == 'is':
                return x is y
        if o == 'not':
            return not self(a[0])
        if o == 'bool':
            vs = [self(x) for x in a[1]]
            return all(vs) if a[0] == 'and' else any(vs)
        if o == 'un' and a[0] == '-':
            return -self(a[1])
        if o == 'bin':
            x, y = self(a[1]), self(a[2])
            if None in (x, y):
                raise Undecided('None')
            if a[0] == '/':
                from fractions import Fraction
                return Fraction(x) / Fraction(y)
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '//': lambda: x // y, '%': lambda: x % y}[a[0]]()
        if o == 'call' and a[0].op == 'ext' and not a[2]:
            n = a[0].args[0].split('.')[-1]
            vs = [self(x) for x in a[1]]
            if n in ('max', 'min', 'maximum', 'minimum') and len(vs) > 1:
                return (max if n.startswith('max') else min)(vs)
            if len(vs) == 1:
                if n in ('int', 'fix', 'trunc'):
                    return int(vs[0])
                if n == 'float':
                    return vs[0]
                if n == 'ceil':
                    return math.ceil(vs[0])
                if n == 'floor':
                    return math.floor(vs[0])
                if n == 'round':
                    return round(vs[0])
        raise Undecided('%s' % show(t, 3))


def limit(chk, w):
    pkg = package(w)
    r = Run(pkg, None, {})
    M = sym('max_vecs_per_node')
    o = r.new(VSH, [], [('inner_product', sym('inner_product')), ('max_vecs_per_node', M)])
    c = r.deep(r.attr(o, 'max_vecs_per_proc'))
    D = r.deep(r.call('parallel.get_num_nodes', []))
    P = r.deep(r.call('parallel.get_num_procs', []))
    f = None
    cls = pkg.cls(VSH) if hasattr(pkg, 'cls') else None
    loc = next((e.loc for e in r.events if e.kind == 'attrset' and e.d.get('name') == 'max_vecs_per_proc'), 'modred/vectorspace.py')
    construct = VSH + '.__init__'

    def vals(t, rng):
        return [t.args[0]] if t.op == 'const' else rng
    n = 0
    for p in vals(P, range(1, 8)):
        for d in vals(D, [1, 2, 3]):
            if p < d:
                continue
            for m in list(range(1, 30)) + [None]:
                env = {M: m, P: p, D: d}
                v = Num(env)(c)
                mm = 10000 if m is None else m
                n += 1
                if v != int(v) or v < 3:
                    chk.violate('limit', construct, loc, 'max_vecs_per_proc is %s for max_vecs_per_node=%s, %d processes on %d nodes: the algorithms need three vectors' % (v, m, p, d))
                    return False
                if m is not None and mm * d >= 3 * p and v * p > mm * d:
                    chk.violate('limit', construct, loc, '%d processes on %d nodes hold %s vectors each, more than max_vecs_per_node=%s' % (p, d, v, m))
                    return False
                if m is not None and mm * d < 3 * p and v > 3:
                    chk.violate('limit', construct, loc, 'max_vecs_per_proc is %s although max_vecs_per_node=%s does not even allow three for %d processes on %d nodes' % (v, m, p, d))
                    return False
    # proof for all numbers: the limit is 3, or a floored quotient not above M*D/P, chosen when M*D >= 3*P
    mp, dp, pp = (Poly.atom(x) for x in ('M', 'D', 'P'))
    ev = {M: mp, D: dp if D.op != 'const' else K(D.args[0]), P: pp if P.op != 'const' else K(P.args[0])}

    def rat(t):
        """(numerator, denominator)"""
        if t in ev:
            return ev[t], ONE
        if t.op == 'const' and isinstance(t.args[0], (int, float)) and t.args[0] == int(t.args[0]):
            return K(int(t.args[0])), ONE
        if t.op == 'bin':
            (a, b), (x, y) = rat(t.args[1]), rat(t.args[2])
            if t.args[0] == '*':
                return a * x, b * y
            if t.args[0] == '/':
                return a * y, b * x
            if t.args[0] in '+-':
                return (a * y + x * b if t.args[0] == '+' else a * y - x * b), b * y
        if t.op == 'call' and t.args[0].op == 'ext' and len(t.args[1]) == 1 and t.args[0].args[0].split('.')[-1] == 'float':
            return rat(t.args[1][0])
        raise Undecided('limit %s' % show(t, 4))

    def leaf(t, facts):
        if t.op == 'phi':
            q = t.args[0]
            if q.op == 'cmp' and q.args[0] == 'is' and q.args[1] is M and q.args[2] is NONE:
                return leaf(t.args[2], facts)
            if q.op == 'cmp' and q.args[0] == '<':
                def sel(x):
                    while x.op == 'phi' and x.args[0].op == 'cmp' and x.args[0].args[0] == 'is' and x.args[0].args[1] is M:
                        x = x.args[2]
                    return x
                (a, b), (x, y) = rat(strip(q.args[1])), rat(strip(q.args[2]))
                lt = x * b - a * y - ONE       # a/b < x/y, positive denominators, integers
                leaf(t.args[1], facts + [lt])
                leaf(t.args[2], facts + [lt.scale(-1) - ONE])
                return
            raise Undecided('limit depends on %s' % show(q, 4))
        F = Facts()
        MD, PP = mp * ev[D], ev[P]
        for p in facts + [mp - ONE, ev[D] - ONE, PP - ONE]:
            F.add(p)
        if t.op == 'const' and t.args[0] == 3:
            return
        fl = None
        if t.op == 'bin' and t.args[0] == '//':
            fl = strip(mk('bin', '/', t.args[1], t.args[2]))
        elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].split('.')[-1] in ('int', 'floor') and len(t.args[1]) == 1:
            fl = strip(t.args[1][0])
            while fl.op == 'call' and fl.args[0].op == 'ext' and fl.args[0].args[0].split('.')[-1] == 'floor':
                fl = fl.args[1][0]
        if fl is None:
            raise Undecided('limit %s' % show(t, 4))
        a, b = rat(fl)
        if not F.ge(a - b.scale(3)) or not F.ge(MD * b - a * PP):
            raise Undecided('limit %s' % show(t, 5))

    def strip(t):
        if t.op == 'phi' and t.args[0].op == 'cmp' and t.args[0].args[0] == 'is' and t.args[0].args[1] is M:
            return strip(t.args[2])
        if t.op == 'bin':
            return mk('bin', t.args[0], strip(t.args[1]), strip(t.args[2]))
        return t
    leaf(c, [])
    return 'for all numbers of processes and nodes; %d small cases enumerated for a counterexample' % n


# ---- lists of vectors held together
def match(pat, t, lid, got):
    """t is pat with another index for the comprehension variable."""
    if pat.op == 'lv' and pat.args[0] == lid:
        return got.setdefault('i', t) is t
    if pat is t:
        return True
    if pat.op != t.op or len(pat.args) != len(t.args):
        return False

    def eq(a, b):
        if isinstance(a, T) and isinstance(b, T):
            return match(a, b, lid, got)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        return a == b
    return all(eq(a, b) for a, b in zip(pat.args, t.args))


def entire(l):
    """A part of a list of vectors: the whole list is in memory."""
    if l.op == 'phi':
        return mk('phi', l.args[0], entire(l.args[1]), entire(l.args[2]))
    if l.op == 'index' and l.args[1].op == 'slice':
        x = entire(l.args[0])
        if x.op == 'comp' and has_get(x.args[2]):
            return x
    return l


def list_of(r, nest, t):
    """The list a vector is taken from."""
    if t.op == 'index':
        return entire(t.args[0])
    if t.op == 'mcall' and t.args[1] == 'get':
        found = set()
        for e in r.events:
            if e.kind == 'mcall' and e.d['name'] == 'get' and e.loops and r.an.loops[e.loops[-1]].kind == 'comp' and e.loops[:-1] == tuple(nest.loops[:len(e.loops) - 1]):
                lid, elt = e.loops[-1], r.deep(callterm(e))
                if match(elt, t, lid, {}):
                    found.add(mk('comp', lid, r.deep(r.an.loops[lid].count), elt, ()))
        if len(found) == 1:
            return found.pop()
    return None


def balanced(chk):
    """find_assignments takes the share whose total is closest to the remaining work per remaining worker."""
    r = Run(package('mpiN'), None, {})
    t = mk('sym', 'tasks')
    r.call('parallel.find_assignments', [t])
    for e in r.events:
        v = callterm(e)
        if v is None:
            continue
        if 'argmin' in str(v.args[1] if v.op == 'mcall' else v.args[0]):
            x = r.deep(v.args[0] if v.op == 'mcall' else v.args[1][0])
            names = {y.args[0].args[0] for y in walk(x) if y.op == 'call' and y.args[0].op == 'ext'}
            meth = {y.args[1] for y in walk(x) if y.op == 'mcall'}
            if ('numpy.cumsum' in names or 'cumsum' in meth) and any(n.split('.')[-1] in ('abs', 'absolute', 'fabs') for n in names) \
                    and any(y.op == 'bin' and y.args[0] == '/' for y in walk(x)):
                return ''
    raise Undecided('rule of the division of work')


def callterm(e):
    if e.kind == 'call':
        return mk('call', e.d['func'], e.d['args'], e.d['kw'])
    if e.kind == 'mcall':
        return mk('mcall', e.d['recv'], e.d['name'], e.d['args'], e.d['kw'])
    return None


class Uniform(Model):
    """Shares of equal tasks are at most ceil(n/P); products of process numbers are kept as products."""

    def __init__(self, r, lists, facts, use):
        self.use = use
        self.shares = []
        self.loose = False
        Model.__init__(self, r, lists, facts)

    def share(self, tasks, n, g, i):
        out = Model.share(self, tasks, n, g, i)
        if self.P != ONE and not self.use:
            self.loose = True
        elif self.P != ONE:
            self.shares.append((out.n, n))
            # the largest share is at most n/P rounded up
            self.facts.add(n + self.P - ONE - self.P * out.n)
        return out

    def bounds(self):
        """s <= n/P rounded up: n <= P*c gives s <= c."""
        self.products()
        for s, n in sorted(set(self.shares), key=repr):
            for c in (ONE, MVP - ONE):
                if self.facts.ge(PN * c - n):
                    self.facts.add(c - s)
                    break

    def products(self):
        """Products of process numbers, written out."""
        for a in {a for p in list(self.facts.f) for a in p.atoms() if isinstance(a, tuple) and a[0] == 'prod'}:
            w = Poly.atom(a) - a[1] * a[2]
            self.facts.add(w)
            self.facts.add(w.scale(-1))


def held(chk, r, what, loc, nest, lists, refs, bal, slack=ZERO):
    """The vectors of the lists refs (terms), together, are at most max_vecs_per_proc."""
    def run(f):
        m = Uniform(r, dict(lists), f, bal)
        m.pc, m.nest = nest.pc, nest.loops
        enter(m, nest.loops)
        tot = ZERO
        for t in refs:
            n, _ = m.ev.seq(m.ev(t))
            tot = tot + n
        lim = MVP + slack
        if f.ge(lim - tot):
            return
        if r.world == 'mpiN':
            m.bounds()
            if f.ge(lim - tot):
                return
        mm = None if m.loose else f.model([tot - lim - ONE])
        if mm is not None:
            raise Bad('%s: %r vectors are in memory at once, more than max_vecs_per_proc' % (what, tot), mm)
        raise Unk('%s: %r <= %r not decided' % (what, tot, lim))
    return every_case(chk, 'vectors in memory', VSH, loc, [], empty_ok(run))


def nests_of(r, meth, lists):
    out = []
    if meth == 'lin_combine':
        puts = [e for e in r.events if e.kind == 'mcall' and e.d['name'] == 'put']
        if len(puts) != 1 or len(puts[0].d['args']) != 1:
            raise Undecided('places where a sum is put')
        arg = r.deep(puts[0].d['args'][0])
        if arg.op != 'index':
            raise Undecided('put of %s' % show(arg, 3))
        _, alloc = chain(r, arg.args[0])
        ups = [e for e in r.events if e.kind == 'store' and chain(r, r.deep(e.d['target']))[1] is alloc]
        for c in contributions(r, ups):
            e, v = c[0], c[3]
            n = Nest(r, e, lists)
            if v.op != 'bin' or v.args[0] != '*':
                raise Undecided('contribution %s' % show(v, 3))
            vec = [x for x in v.args[1:] if not any(y is sym('coeff_array') for y in walk(x.args[1] if x.op == 'index' else x)) or False]
            vec = [x for x in v.args[1:] if not (strip_scalar(x).op == 'index' and strip_scalar(x).args[1].op == 'tuple')]
            if len(vec) != 1 or list_of(r, n, vec[0]) is None:
                raise Undecided('contribution %s' % show(v, 3))
            out.append((n, e.loc, [alloc, list_of(r, n, vec[0])]))
        return out
    for e, _ in array_stores(r):
        n = Nest(r, e, lists)
        v = n.val
        if v.op not in ('call', 'mcall'):
            raise Undecided('stored value %s' % show(v, 3))
        args = v.args[1] if v.op == 'call' else v.args[2]
        if len(args) != 2:
            raise Undecided('stored value %s' % show(v, 3))
        refs = []
        for x in args:
            l = list_of(r, n, x)
            if l is None:
                raise Undecided('vector %s' % show(x, 3))
            if l not in refs:
                refs.append(l)
        out.append((n, e.loc, refs))
    return out


LISTS = {'compute_inner_product_array': {'row_vec_handles': Poly.atom('rows'), 'col_vec_handles': Poly.atom('cols')},
         'compute_symm_inner_product_array': {'vec_handles': Poly.atom('vectors')},
         'lin_combine': {'sum_vec_handles': Poly.atom('sums'), 'basis_vec_handles': Poly.atom('bases')}}


def has_get(t):
    return any(x.op == 'mcall' and x.args[1] == 'get' for x in walk(t))


def together(chk, meth, w):
    r = analyse(w, meth)
    lists = LISTS[meth]
    ns = nests_of(r, meth, lists)
    if not ns:
        raise Undecided('no vectors combined')
    bal = False
    if w == 'mpiN':
        try:
            balanced(chk)
            bal = True
        except Undecided:
            pass
    for n, loc, refs in ns:
        if held(chk, r, 'where vectors are combined', loc, n, lists, refs, bal) is False:
            return False
    stale = leftovers(chk, r, meth, ns, lists, bal)
    if stale is False:
        return False
    return '%d places' % len(ns)


def leftovers(chk, r, meth, ns, lists, bal):
    """A chunk of vectors is released before the next one is loaded."""
    for lid, L in r.an.loops.items():
        if L.kind != 'for':
            continue
        for key, b in L.back.items():
            if not (isinstance(key, tuple) and key[0] == 'env'):
                continue
            b = r.deep(b)
            old = loaded(r, b, lid)
            if not old:
                continue
            node = loop_node(r, lid)
            if node is None or not refilled(node, key[1]):
                continue
            # what else is held at that time: lists used together with this one that were made outside the loop
            for n, loc, refs in ns:
                if lid not in n.loops:
                    continue
                mine = [x for x in refs if loaded(r, x, lid) and loaded(r, x, lid) & old]
                if not mine:
                    continue
                others = [x for x in refs if x not in mine and not depends(r, x, lid)]
                m0 = list(n.loops)
                k = m0.index(lid)

                def run(f, n=n, k=k):
                    m = Uniform(r, dict(lists), f, bal)
                    m.pc, m.nest = n.pc, n.loops
                    enter(m, n.loops[:k])
                    cnt = m.ev.num(m.loops[lid].count)
                    j = Poly.atom(('lv', lid))
                    f.add(j - ONE)
                    f.add(cnt - ONE - j)
                    if not f.feasible():
                        raise Empty()
                    inner = {l: ZERO for l in n.loops[k + 1:]}
                    tot = ZERO
                    for i in (j - ONE, j):
                        ev = m.sub(m.ev, dict(inner, **{lid: i}))
                        for x in mine:
                            c, _ = ev.seq(ev(x))
                            tot = tot + c
                    for x in others:
                        c, _ = m.ev.seq(m.ev(x))
                        tot = tot + c
                    lim = MVP + ONE
                    if f.ge(lim - tot):
                        return
                    if r.world == 'mpiN':
                        m.bounds()
                        if f.ge(lim - tot):
                            return
                    mm = None if m.loose else f.model([tot - lim - ONE], 8)
                    if mm is not None:
                        raise Bad('%s still holds the vectors of the chunk before while the next is loaded: %r vectors in memory' % (key[1], tot), mm)
                    raise Unk('%s: %r' % (key[1], tot))
                def single(f, n=n, k=k):
                    # one vector at a time: one more than the limit at most
                    m = Uniform(r, dict(lists), f, bal)
                    m.pc, m.nest = n.pc, n.loops
                    enter(m, n.loops[:k + 1])
                    ev = m.sub(m.ev, {l: ZERO for l in n.loops[k + 1:]})
                    for x in mine:
                        c, _ = ev.seq(ev(x))
                        if not f.ge(ONE - c):
                            m.bounds()
                            if not f.ge(ONE - c):
                                raise Unk('chunk')
                try:
                    every_case(chk, 'vectors in memory', VSH + '.' + meth, loc, [], empty_ok(single))
                    continue
                except Undecided:
                    pass
                if every_case(chk, 'vectors in memory', VSH + '.' + meth, loc, [], empty_ok(run)) is False:
                    return False
    return ''


def loaded(r, t, lid):
    """The comprehensions that load vectors and whose list is this value."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            todo += [x.args[1], x.args[2]]
        elif x.op == 'comp' and x.args[2].op == 'mcall' and x.args[2].args[1] == 'get':
            out.add(x.args[0])
        elif x.op == 'loopout':
            b = r.an.loops[x.args[0]].back.get(x.args[1])
            if b is not None:
                todo.append(r.deep(b))
    return out


def depends(r, t, lid):
    return any(x.op in ('lv', 'mu', 'loopout') and x.args[0] == lid for x in walk(t))


def loop_node(r, lid):
    L = r.an.loops[lid]
    return getattr(L, 'node', None)


def refilled(node, name):
    """The first statement of the loop that binds or deletes the name loads vectors into it."""
    for s in ordered(node.body):
        if isinstance(s, ast.Delete) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets):
            return False
        if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for t in s.targets for x in ast.walk(t)):
            return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' for x in ast.walk(s.value))
    return False


def ordered(body):
    for s in body:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            for x in ordered(getattr(s, f, []) or []):
                yield x


# ---- vectors loaded before the loops
def probes(chk, meth):
    """Vectors read to time the operations are released before the work starts."""
    pkg = package('nompi')
    f = methods(pkg.modules['vectorspace'].env['VectorSpaceHandles'].args[0])[meth]
    body = f.node.body
    live = {}
    n = 0
    for s in body:
        if isinstance(s, (ast.For, ast.While)):
            if any(isinstance(x, (ast.ListComp, ast.GeneratorExp)) and isget(x.elt) for x in ast.walk(s)) or any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and x.args and isget(x.args[0]) for x in ast.walk(s)):
                bad = [k for k in live if not rebinds(s, k)]
                if bad:
                    chk.violate('vectors in memory', VSH + '.' + meth, '%s:%d' % (f.module.rel if hasattr(f.module, 'rel') else 'modred/vectorspace.py', live[bad[0]]),
                                'the vector%s %s read for timing stay%s in memory during the work' % ('s' if len(bad) > 1 else '', ', '.join(sorted(bad)), '' if len(bad) > 1 else 's'))
                    return False
            continue
        if isinstance(s, ast.Delete):
            for x in s.targets:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name):
                        live.pop(y.id, None)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            k, v = s.targets[0].id, s.value
            if isget(v) or (isinstance(v, ast.Name) and v.id in live) or (isinstance(v, ast.BinOp) and vecs(v, live)):
                live[k] = s.lineno
                n += 1
            else:
                live.pop(k, None)
        elif isinstance(s, (ast.If, ast.With, ast.Try)):
            for x in ordered([s]):
                if isinstance(x, ast.Delete):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            live.pop(y.id, None)
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name):
                                live.pop(y.id, None)
    return '%d vectors' % n


def isget(v):
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'get' and not v.args and not v.keywords


def vecs(v, live):
    if isinstance(v, ast.Name):
        return v.id in live
    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult, ast.Sub)):
        return vecs(v.left, live) or vecs(v.right, live)
    return False


def rebinds(s, k):
    """The loop itself gives the name another value."""
    return any(isinstance(x, ast.Name) and x.id == k and not isinstance(x.ctx, ast.Load) for x in ast.walk(s))


# ---- loads elsewhere
def elsewhere(chk, w):
    """No other function loads a list of vectors whose length is not limited."""
    pkg = package(w)
    n = 0
    for name, f, cls in entries(pkg):
        if name.split('.')[0] == 'VectorSpaceHandles' or name.startswith(('parallel.', 'util.')):
            continue
        r = cached_run(pkg, f, cls=cls)
        for e in r.events:
            if e.kind == 'mcall' and e.d['name'] == 'get' and not e.d['args'] and e.loops and (not e.stack or not e.stack[-1][0].startswith(VSH)):
                rec = r.deep(e.d['recv'])
                if any('handle' in str(x.args[-1]) for x in walk(rec) if x.op in ('sym', 'attr')):
                    L = r.an.loops[e.loops[-1]]
                    kept = any(e2.kind == 'mutcall' and e2.d.get('name') in ('append', 'extend', 'insert') and e2.loops == e.loops
                               and any(isinstance(y, T) and any(z is callterm(e) for z in walk(r.deep(y))) for y in e2.d.get('args', ())) for e2 in r.events)
                    if kept or L.kind == 'comp' and any(True for e2 in r.events for y in stored(e2) if any(z.op == 'comp' and z.args[2] is r.deep(callterm(e)) for z in walk(r.deep(y)))):
                        chk.violate('vectors in memory', name, e.loc, 'all vectors of %s are loaded at once, whatever the limit' % show(rec, 3))
                        return False
        n += 1
    return '%d functions' % n


def stored(e):
    if e.kind in ('attrset', 'store', 'return'):
        v = e.d.get('value')
        if isinstance(v, T):
            yield v
    elif e.kind in ('call', 'mcall', 'prim'):
        for v in tuple(e.d.get('args') or ()) if isinstance(e.d.get('args'), tuple) else ():
            if isinstance(v, T):
                yield v


@prop('P10', 'index algebra over symbolic shares and chunks: lengths of the lists of vectors alive together against max_vecs_per_proc',
      'the vectors of the latest exchange and temporaries of vector operations are not counted; lists of handles the user makes are not vectors')
def p10(chk):
    for w in ('nompi', 'mpi1', 'mpiN'):
        chk.ob('limit per process [%s]' % w, limit, chk, w)
    for meth in sorted(LISTS):
        for w in ('nompi', 'mpi1', 'mpiN'):
            chk.ob('%s [%s]' % (meth, w), together, chk, meth, w)
        chk.ob('%s: vectors read for timing' % meth, probes, chk, meth)
    chk.ob('vectors read elsewhere', elsewhere, chk, 'nompi')
