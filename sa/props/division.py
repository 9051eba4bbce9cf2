"""P06: the division of tasks over the processes, by induction over the processes."""
from ..par import *
from ..report import prop
from ..poly import Poly, poly, NotPoly
from ..lin import Facts

ONE = Poly.const(1)
F_, N_, W_, P_ = (Poly.atom(x) for x in ('first', 'ntasks', 'worker', 'nworkers'))
LEN = ext('builtins.len')


class Unknown(Exception):
    pass


class Env(object):
    def __init__(self, r, lid, first, tasks, weights):
        self.r, self.lid, self.first, self.tasks, self.weights = r, lid, first, tasks, weights
        self.free = {}          # opaque position -> (atom, length term)

    # ---- lengths of sequences
    def length(self, t):
        """Number of elements of a 1D sequence (polynomial)."""
        if t is self.tasks or t is self.weights:
            return N_
        if t.op == 'phi':
            a, b = self.length(t.args[1]), self.length(t.args[2])
            if a == b:
                return a
            raise Unknown('length of %s' % show(t, 3))
        if t.op == 'call' and t.args[0].op == 'ext':
            n, a = t.args[0].args[0], t.args[1]
            s = n.split('.')[-1]
            if s in ('ones', 'zeros', 'full', 'empty') and n.startswith('numpy') and a:
                return self.num(a[0])
            if s in ('array', 'asarray', 'abs', 'absolute', 'fabs', 'cumsum', 'list', 'tuple', 'asfarray', 'atleast_1d', 'ravel') and a:
                return self.length(a[0])
            if s in ('add', 'subtract') and len(a) == 2:
                return self.length(t.args[1][0])
        if t.op == 'mcall' and t.args[1] in ('cumsum', 'copy', 'astype', 'ravel'):
            return self.length(t.args[0])
        if t.op == 'index' and t.args[1].op == 'slice':
            a, b, s = t.args[1].args
            n = self.length(t.args[0])
            if s not in (NONE, const(1)):
                raise Unknown('step')
            lo = Poly() if a is NONE else self.num(a)
            hi = n if b is NONE else self.num(b)
            if not (self.facts.ge(lo) and self.facts.ge(n - lo) and self.facts.ge(hi - lo) and self.facts.ge(n - hi)):
                raise Unknown('slice bounds')
            return hi - lo
        if t.op == 'bin' and t.args[0] in '+-*/':
            for x in t.args[1:]:
                try:
                    return self.length(x)
                except Unknown:
                    pass
        if t.op == 'comp' and not t.args[3]:
            return self.num(t.args[1]) if isinstance(t.args[1], T) else Poly.const(t.args[1])
        if t.op == 'un':
            return self.length(t.args[1])
        raise Unknown('length of %s' % show(t, 3))

    # ---- numbers
    def leaf(self, t):
        if t is self.first:
            return F_
        if t.op == 'lv' and t.args[0] == self.lid:
            return W_
        if t is NPROCS:
            return P_
        if t.op == 'call' and t.args[0] is LEN:
            return self.length(t.args[1][0])
        if t.op == 'attr' and t.args[1] == 'size':
            return self.length(t.args[0])
        if t.op == 'index' and t.args[1] is const(0) and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
            return self.length(t.args[0].args[0])
        arg = None
        if t.op == 'mcall' and t.args[1] in ('argmin', 'argmax') and not t.args[2]:
            arg = t.args[0]
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.argmin', 'numpy.argmax') and len(t.args[1]) == 1:
            arg = t.args[1][0]
        if arg is not None:
            n = self.length(arg)
            a = Poly.atom(('pos', t))
            self.facts.add(a)
            if self.facts.ge(n - ONE):
                self.facts.add(n - a - ONE)
            else:
                raise Unknown('position in a sequence that may be empty')
            self.used.add(('pos', t))
            return a
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.int', 'operator.index') and len(t.args[1]) == 1:
            return self.num(t.args[1][0])
        if t.op == 'call' and t.args[0] in (ext('builtins.sum'), ext('numpy.sum')) and len(t.args[1]) == 1 and any(x is self.weights for x in walk(t)):
            n = self.length(t.args[1][0])
            a = Poly.atom(('pos', t))
            d = self.facts.decide(n - ONE)
            if d is None:
                raise Choice(mk('cmp', '<', const(0), mk('call', LEN, (t.args[1][0],), ())))
            if not d:
                return Poly()
            self.facts.add(a)
            return a
        if t.op == 'phi':
            raise Choice(t.args[0])
        if t.op == 'call' and t.args[0] in (ext('builtins.min'), ext('builtins.max')) and len(t.args[1]) == 2:
            x, y = self.num(t.args[1][0]), self.num(t.args[1][1])
            d = self.facts.decide(y - x)
            if d is None:
                raise Choice(mk('cmp', '<', t.args[1][1], t.args[1][0]))
            return (x if d else y) if t.args[0] is ext('builtins.min') else (y if d else x)
        if t.op == 'bin' and t.args[0] not in ('+', '-', '*'):
            raise Unknown('value %s' % show(t, 3))
        if t.op in ('const', 'bin', 'un'):
            return None
        raise Unknown('value %s' % show(t, 3))

    def num(self, t):
        t = self.pick(t)
        try:
            return poly(t, self.at)
        except NotPoly as e:
            raise Unknown(str(e))

    def at(self, t):
        if t.op == 'phi':
            u = self.pick(t)
            return self.num(u)
        return self.leaf(t)

    def pick(self, t):
        while t.op == 'phi':
            d = self.truth(t.args[0])
            t = t.args[1] if d else t.args[2]
        return t

    def truth(self, c):
        if c in self.chosen:
            return self.chosen[c]
        if c.op == 'const':
            return bool(c.args[0])
        if c.op == 'not':
            return not self.truth(c.args[0])
        raise Choice(c)

    def facts_of(self, c, v):
        """Facts of c having the outcome v: list of alternatives (lists of polys)."""
        if c.op == 'not':
            return self.facts_of(c.args[0], not v)
        if c.op == 'bool' and len(c.args[1]) >= 1:
            conj = (c.args[0] == 'and') == v
            parts = [self.facts_of(x, v) for x in c.args[1]]
            if conj:
                out = [[]]
                for p in parts:
                    out = [a + b for a in out for b in p]
                return out
            return [a for p in parts for a in p]
        if c.op == 'cmp' and c.args[0] in ('<', '=='):
            x, y = self.num(c.args[1]), self.num(c.args[2])
            d = y - x
            if c.args[0] == '<':
                return [[d - ONE]] if v else [[d.scale(-1)]]
            return [[d, d.scale(-1)]] if v else [[d - ONE], [d.scale(-1) - ONE]]
        if c.op == 'cmp' and c.args[0] == 'is':
            return [[]]
        n = self.num(c)          # truth of a number
        return [[n - ONE], [n.scale(-1) - ONE]] if v else [[n, n.scale(-1)]]


class Choice(Exception):
    def __init__(self, c):
        Exception.__init__(self)
        self.c = c


def cases(env, base, fn, chosen=None, facts=None, depth=0):
    """Run fn under every decided combination of the conditions it asks about."""
    env.chosen = dict(chosen or {})
    env.facts = (facts or base).copy()
    env.used = set()
    if not env.facts.feasible():
        return
    try:
        fn(env)
        return
    except Choice as e:
        c = e.c
    if depth > 12:
        raise Undecided('too many cases')
    ch, fs = dict(env.chosen), env.facts.copy()
    for _ in range(6):
        try:
            env.facts_of(c, True)
            break
        except Choice as e:
            c = e.c
        except Unknown:
            break
    for v in (True, False):
        env.chosen, env.facts = dict(ch), fs.copy()
        try:
            alts = env.facts_of(c, v)
        except Unknown:
            alts = [[]]
            env.opaque = True
        keep = env.facts.copy()
        for alt in alts:
            f2 = keep.copy()
            for p in alt:
                f2.add(p)
            if f2.feasible():
                ch2 = dict(ch)
                ch2[c] = v
                cases(env, base, fn, ch2, f2, depth + 1)


@prop('P06', 'induction over the processes on the interpreted loop: linear-integer reasoning about the slice given to each process and the next unassigned task',
      'find_assignments for all task lists, weights and process counts (weights enter only through positions known to lie in range).')
def p06(c):
    c.rule('one-list-each', 'each process gets exactly one list, in order')
    c.rule('contiguous', 'a process gets the tasks from the first unassigned one up to where the next process starts')
    c.rule('complete', 'after the last process no task is left')
    c.rule('prefix', 'a process gets a task whenever one is left (the processes with work are the first ones)')
    for world in ('mpiN', 'mpi1', 'nompi'):
        pkg = package(world)
        c.ob('find_assignments (%s)' % world, assign, c, pkg, world)


def assign(c, pkg, world):
    r = Run(pkg)
    q = 'parallel.find_assignments'
    v = r.deep(r.call(q))
    nw = {'mpiN': NPROCS}.get(world, const(1))
    nwp = P_ if world == 'mpiN' else ONE
    base = Facts([F_, N_ - F_, W_, nwp - W_ - ONE, nwp - ONE])
    if world != 'mpiN' and v.op in ('phi', 'list'):
        # a single process: no loop is left
        lid, mu, first, nxt, back, loc = None, None, const(0), None, v, '%s:0' % q
        base = Facts([N_, F_, F_.scale(-1), W_, W_.scale(-1)])
    elif v.op in ('loopout', 'comp'):
        lid, key = v.args[0], v.args[1]
        L = r.an.loops[lid]
        loc = getattr(L, 'loc', '%s:0' % q)
        if L.breaks or L.returns or L.cond is not None:
            raise Undecided('the loop over the processes ends early')
        if L.count is not nw:
            if isinstance(L.count, T) and L.count.op in ('bin', 'const') and all(x in (NPROCS,) or x.op in ('const', 'bin') for x in walk(L.count)):
                c.violate('one-list-each', q, loc, '%s lists are made for %s processes' % (show(L.count, 3), show(nw, 2)))
                return False
            raise Undecided('number of lists %s' % show(L.count, 3))
        if v.op == 'comp':
            if v.args[3]:
                c.violate('one-list-each', q, loc, 'a process gets no list unless %s' % show(v.args[3][0], 3))
                return False
            mu = mk('sym', 'lists so far')
            back = mk('append', mu, r.deep(v.args[2]))
        else:
            if r.deep(L.init[key]) is not mk('list', ()):
                raise Undecided('the lists do not start empty')
            mu = mk('mu', lid, key)
            back = r.deep(L.back[key])
        # the next unassigned task
        cand = [k for k in L.back if k[0] == 'env' and any(x is mk('mu', lid, k) for x in walk(back)) and L.init.get(k) is not None and L.init[k].op == 'const']
        cand = [k for k in cand if isinstance(L.init[k].args[0], int)]
        if len(cand) != 1:
            raise Undecided('which variable is the first unassigned task')
        fk = cand[0]
        if L.init[fk] is not const(0):
            c.violate('contiguous', q, loc, 'the first task assigned is task %s' % show(L.init[fk], 2))
            return False
        first = mk('mu', lid, fk)
        nxt = r.deep(L.back[fk])
    else:
        if v is mk('list', ()):
            c.violate('one-list-each', q, '%s:0' % q, 'no list is made for the only process')
            return False
        raise Undecided('result %s' % show(v, 3))
    env = Env(r, lid, first, sym('tasks'), sym('task_weights'))
    env.opaque = False
    res = []

    def one(env):
        b = env.pick(back)
        if nxt is None:
            if b.op != 'list' or len(b.args[0]) != 1:
                if b.op == 'list':
                    res.append(('one-list-each', '%d lists are made for one process' % len(b.args[0]), True))
                    return
                raise Undecided('lists %s' % show(b, 4))
            b = mk('append', NONE, b.args[0][0])
        elif b.op != 'append' or b.args[0] is not mu:
            if b is mu:
                res.append(('one-list-each', 'a process gets no list', True))
                return
            raise Undecided('list of a process: %s' % show(b, 4))
        elt = env.pick(b.args[1])
        n = env.num(nxt) if nxt is not None else None
        fs = env.facts
        # on entry to the loop the invariant 0 <= first <= ntasks holds; first worker: first = 0 is covered
        if elt is mk('list', ()):
            x = F_
        elif elt.op == 'index' and elt.args[1].op == 'slice' and elt.args[0] is sym('tasks') and elt.args[1].args[2] in (NONE, const(1)):
            a, e = elt.args[1].args[:2]
            lo = Poly() if a is NONE else env.num(a)
            x = N_ if e is NONE else env.num(e)
            if fs.eq(lo, F_) is not True:
                res.append(('contiguous', 'the share of a process starts at %r instead of the first unassigned task' % lo, fs.eq(lo, F_) is False or known(env, lo)))
                return
            if not fs.ge(x - F_):
                res.append(('contiguous', 'the share of a process may end before it starts', known(env, x)))
                return
            if not fs.ge(N_ - x):
                # slices stop at the end of the list
                cc = mk('cmp', '<', NT, e)
                if cc not in env.chosen:
                    raise Choice(cc)
                if env.chosen[cc] and n is not None and not fs.ge(W_ - nwp + ONE) and not fs.ge(N_ - n):
                    raise Undecided('the first unassigned task may lie beyond the end')
                if env.chosen[cc]:
                    x = N_
                    if n is not None and fs.ge(n - N_):
                        n = N_
        else:
            raise Undecided('share of a process: %s' % show(elt, 4))
        if n is not None and fs.eq(n, x) is not True:
            res.append(('contiguous', 'the share of a process ends at %s, the next one starts at %s' % (nice(x), nice(n)), known(env, n) and known(env, x)))
            return
        if not fs.ge(x - F_ - ONE):
            # nothing assigned: then nothing may be left
            if not fs.ge(F_ - N_):
                res.append(('prefix', 'a process gets no task although tasks are left', known(env, x)))
                return
        g = fs.copy()
        g.add(W_ - nwp + ONE)
        if g.feasible() and g.eq(x, N_) is not True:
            res.append(('complete', 'the last process takes the tasks up to %s and leaves the others unassigned' % nice(x), known(env, x)))
    try:
        cases(env, base, one)
    except Unknown as e:
        raise Undecided(str(e))
    bad = [x for x in res]
    if not bad:
        return ''
    for rule, msg, sure in bad:
        if not sure or env.opaque:
            raise Undecided(msg)
    seen = set()
    for rule, msg, sure in bad:
        if rule not in seen:
            seen.add(rule)
            c.violate(rule, q, loc, msg)
    return False


NT = mk('call', LEN, (sym('tasks'),), ())


def known(env, p):
    return all(a in ('first', 'ntasks', 'worker', 'nworkers') or (isinstance(a, tuple) and a[0] == 'pos') for a in p.atoms())


def nice(p):
    s = repr(p)
    import re
    return re.sub(r"\('pos'.*?\)\)*", 'a position chosen by the weights', s)[:160]
