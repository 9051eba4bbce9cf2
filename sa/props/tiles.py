"""P07, P08, P09, P10: what is computed where; chunk algebra over symbolic shares, chunks and passes."""
import os
from ..par import *
from ..report import prop
from ..poly import Poly, floordiv
from ..lin import Facts
from .p2p import active_count, mod_base
from ..arr import Ev, Lst, Arr, Opq, Unk, Split, cells, mulp, ZERO, ONE, K, NON

PR, PN = Poly.atom(RANK), Poly.atom(NPROCS)
PRIMS = {'parallel.find_assignments': True, 'util.make_iterable': True}
MVP = Poly.atom('MVP')
SRC = Poly.atom('SRC')


def analyse(world, meth, cls='vectorspace.VectorSpaceHandles'):
    pkg = package(world)
    r = Run(pkg, None, dict(PRIMS))
    o = r.obj(cls, 'self')
    r.self_obj = o
    r.result = r.method(o, meth)
    r.world = world
    return r


class TEv(Ev):
    """Evaluation that keeps the process it is done for."""

    def with_env(self, var, val):
        e = TEv(self.inputs, self.facts, self.dec, self.loops, self.hints, self.hook)
        e.env = dict(self.env)
        e.env[var] = val
        e.mus = dict(self.mus)
        e.rank, e.depth_mu, e.model = self.rank, self.depth_mu, self.model
        return e


class Model(object):
    """Evaluation of index terms in one case."""

    def __init__(self, r, lists, facts, rank=PR):
        self.r, self.lists = r, lists
        self.facts = facts
        self.loops = r.an.loops
        self.P = PN if r.world == 'mpiN' else ONE
        self.passes = {}            # lid of a pass loop -> payload components (terms)
        self.src = {}
        self.domains = {}
        self.nact = {}
        self.rank = rank
        self.depth = 0
        self.ev = self.make(rank)
        for p in (PR, self.P - PR - ONE, self.P - K(2 if r.world == 'mpiN' else 1), SRC, self.P - SRC - ONE, MVP - K(3)):
            facts.add(p)
        for n in lists.values():
            facts.add(n)

    def make(self, rank, env=None):
        inputs = {RANK: rank, NPROCS: self.P}
        if self.r.world != 'mpiN':
            inputs[RANK] = ZERO
        for name, n in self.lists.items():
            inputs[sym(name)] = Lst(n, (lambda nm: lambda i: Opq(('h', nm, i)))(name))
        ev = TEv(inputs, self.facts, loops=self.loops, hook=self.hook)
        ev.rank, ev.depth_mu = rank, 0
        ev.model = self
        ev.env.update(env or {})
        return ev

    # ---- shares of work
    def share(self, tasks, n, g, i):
        if self.P == ONE:
            return Lst(n, g)
        key = repr(n)
        S, E = Poly.atom(('S', key, i)), Poly.atom(('E', key, i))
        self.domains[key] = n
        for p in (S, E - S, n - E, n):
            self.facts.add(p)
        if i.isconst() and i.value() == 0:
            self.facts.add(S.scale(-1))
        return Lst(E - S, lambda k: g(S + k))

    def hook(self, ev, t):
        o, a = t.op, t.args
        if o == 'prim':
            d = dict(a[1])
            if a[0] == 'util.make_iterable':
                return ev(d['arg'] if 'arg' in d else list(d.values())[0])
            if a[0] == 'parallel.find_assignments':
                n, g = ev.seq(ev(d['tasks']))
                return Lst(self.P, lambda i: self.share(d['tasks'], n, g, i))
        if o == 'range':
            lo, hi, st = (ev.num(x) for x in a)
            if st != ONE:
                raise Unk('step')
            n = hi - lo
            if not ev.ge(n):
                n = ZERO
            return Lst(n, lambda i: lo + i)
        if o == 'rangelen':
            lo, hi, st = (ev.num(x) for x in a)
            if not self.facts.ge(st - ONE):
                raise Unk('step')
            if not ev.ge(hi - lo - ONE):
                return ZERO
            if st == ONE:
                return hi - lo
            q = Poly.atom(('ceil', hi - lo, st))
            self.facts.add(q - ONE)
            self.facts.add(q * st - hi + lo)
            self.facts.add(hi - lo - ONE - (q - ONE) * st)
            return q
        if o == 'bin' and a[0] == '*':
            x, y = ev(a[1]), ev(a[2])
            if isinstance(x, Poly) and isinstance(y, Poly) and not x.isconst() and not y.isconst() and all(
                    z == 'MVP' or z is NPROCS for z in x.atoms() | y.atoms()):
                # a product of fixed numbers is one number
                if repr(y) < repr(x):
                    x, y = y, x
                w = Poly.atom(('prod', x, y))
                if self.facts.ge(x - ONE) and self.facts.ge(y - ONE):
                    for p in (w - ONE, w - x, w - y):
                        self.facts.add(p)
                    return w
        n_act = self.active(ev, t)
        if n_act is not None:
            return n_act
        if o == 'attr' and a[1] == 'max_vecs_per_proc':
            return MVP
        if o == 'attr' and a[1] == 'max_vecs_per_node' and a[0].op in ('sym', 'obj'):
            # one process: the same number; else at least as large (P10 limit)
            if self.r.world != 'mpiN':
                return MVP
            n = Poly.atom('MVN')
            self.facts.add(n - MVP)
            return n
        if o == 'call' and a[0].op == 'ext' and a[0].args[0] in ('numpy.conj', 'numpy.conjugate') and len(a[1]) == 1:
            v = ev(a[1][0])
            if isinstance(v, Opq) and v.key[0] == 'ip':
                return Opq(('ip', v.key[2], v.key[1]))
        if o == 'mcall' and a[1] in ('conj', 'conjugate') and not a[2]:
            v = ev(a[0])
            if isinstance(v, Opq) and v.key[0] == 'ip':
                return Opq(('ip', v.key[2], v.key[1]))
        if o == 'mcall' and a[1] == 'get' and not a[2]:
            v = ev(a[0])
            if isinstance(v, Opq) and v.key[0] == 'h':
                return Opq(('vec',) + v.key[1:])
        if o == 'call':
            f = a[0]
            if f.op == 'attr' and f.args[1] == 'inner_product' and len(a[1]) == 2 and not a[2]:
                u, v = ev(a[1][0]), ev(a[1][1])
                if isinstance(u, Opq) and isinstance(v, Opq) and u.key[0] == 'vec' and v.key[0] == 'vec':
                    return Opq(('ip', u.key, v.key))
                raise Unk('inner product of %r and %r' % (u, v))
            if f.op == 'ext' and f.args[0] in ('builtins.max', 'builtins.min') and len(a[1]) == 1:
                return self.extremum(ev, t)
            if f.op == 'ext' and f.args[0] in ('numpy.sort', 'builtins.sorted') and len(a[1]) == 1 and not a[2]:
                n, g = ev.seq(ev(a[1][0]))
                return Lst(n, lambda i: Poly.atom(('sorted', a[1][0], i)))
            if f.op == 'ext' and f.args[0] in ('numpy.ceil', 'math.ceil'):
                return self.ceil(ev, a[1][0])
            if f.op == 'ext' and f.args[0] in ('builtins.int', 'numpy.floor', 'math.floor', 'numpy.fix', 'math.trunc') and len(a[1]) == 1 and not a[2]:
                x = ev(a[1][0])
                if isinstance(x, Poly):
                    den = lcd(x)
                    if den == 1:
                        return x
                    if not f.args[0].endswith('floor') and not ev.ge(x.scale(den)):
                        # towards zero
                        q = Poly.atom(('//', x.scale(-den), K(den)))
                        self.facts.add(q.scale(-den) - x.scale(den))
                        self.facts.add(q.scale(den) + K(den - 1) + x.scale(den))
                        self.facts.add(q)
                        return q.scale(-1)
                    q = Poly.atom(('//', x.scale(den), K(den)))
                    self.facts.add(x.scale(den) - q.scale(den))
                    self.facts.add(q.scale(den) + K(den - 1) - x.scale(den))
                    return q
            if f.op == 'ext' and f.args[0] in ('builtins.set', 'builtins.frozenset', 'numpy.unique') and len(a[1]) == 1 and a[1][0] is sym('coeff_array_col_indices'):
                raise Bad('the columns chosen are taken without order and repetition (%s)' % f.args[0].split('.')[-1], {})
        if o == 'bin' and a[0] == '//':
            x, y = ev(a[1]), ev(a[2])
            if isinstance(x, Poly) and isinstance(y, Poly) and not y.isconst():
                q = Poly.atom(('//', x, y))
                if not self.facts.ge(y - ONE):
                    raise Unk('division by %r' % y)
                self.facts.add(x - q * y)
                self.facts.add(y - ONE - x + q * y)
                return q
        if o == 'mu':
            return self.mu(ev, t)
        if o == 'index' and a[0].op == 'call' and a[0].args[0].op == 'ext' and a[0].args[0].args[0].endswith('COMM_WORLD.recv'):
            return self.received(ev, a[0], a[1])
        return None

    def active(self, ev, t):
        """The number of non-empty shares: the active processes are the first ones."""
        if t.op != 'call':
            return None
        F = active_count(t)
        if F is None:
            return None
        n, g = ev.seq(ev(F))
        if self.P == ONE:
            k, _ = ev.seq(g(ZERO))
            return ONE if ev.ge(k - ONE) else ZERO
        if n != self.P:
            raise Unk('shares')
        k, _ = ev.seq(g(PR))
        N = Poly.atom(('NACT', repr(F)))
        self.facts.add(N)
        self.facts.add(self.P - N)
        self.facts.add(N - ONE - PR if ev.ge(k - ONE) else PR - N)
        self.nact[N] = g
        return N

    def extremum(self, ev, t):
        v = ev(t.args[1][0])
        n, g = ev.seq(v)
        m = Poly.atom(('ext', t))
        if not self.facts.ge(n - ONE):
            raise Unk('extremum of a possibly empty sequence')
        if n == ONE:
            return g(ZERO)
        s = 1 if t.args[0].args[0].endswith('max') else -1
        for i in (PR, SRC):
            x = g(i)
            if not isinstance(x, Poly):
                raise Unk('extremum of %r' % (x,))
            self.facts.add((m - x).scale(s))
        if s == 1:
            self.facts.add(m)
        return m

    def ceil(self, ev, t):
        if t.op == 'bin' and t.args[0] == '/':
            x, y = ev.num(t.args[1]), ev.num(t.args[2])
        else:
            x, y = ev.num(t), ONE
        if lcd(y) != 1:
            raise Unk('fraction')
        x, y = x.scale(lcd(x)), y.scale(lcd(x))
        if y == ONE:
            return x
        if not self.facts.ge(y - ONE):
            raise Unk('division by %r' % y)
        q = Poly.atom(('ceil', x, y))
        self.facts.add(q * y - x)
        self.facts.add(x + y - ONE - q * y)
        if self.facts.ge(x):
            self.facts.add(q)
        return q

    # ---- values carried around by the passes
    def mu(self, ev, t):
        lid, key = t.args
        if lid not in ev.env:
            return None
        L = self.loops[lid]
        p = ev.env[lid]
        if L.kind != 'for' or L.breaks or L.continues or L.returns:
            raise Unk('loop with early exit')
        if ev.ge(p.scale(-1)):
            init = L.init.get(key)
            if init is None or init.op == 'undef':
                raise Unk('undefined before the loop')
            return ev(init)
        if ev.depth_mu > 3:
            raise Unk('loop-carried value')
        back = L.back.get(key)
        if back is None:
            raise Unk('loop-carried value')
        e2 = self.sub(ev, {lid: p - ONE})
        e2.depth_mu = ev.depth_mu + 1
        return e2(back)

    def sub(self, ev, env, rank=None):
        e2 = self.make(ev.rank if rank is None else rank)
        e2.env = dict(ev.env)
        e2.env.update(env)
        return e2

    def received(self, ev, recv, pos):
        if pos.op != 'const':
            raise Unk('message position')
        ex = self.exchange(recv)
        lid, comps = ex['lid'], ex['payload']
        if lid is None or lid not in ev.env:
            raise Unk('exchange outside the passes')
        k = pos.args[0]
        if not isinstance(k, int) or not -len(comps) <= k < len(comps):
            raise Unk('message position')
        # the sender is active
        for b in ex['bases']:
            N = ev(b)
            if N in self.nact:
                self.facts.add(N - ONE - SRC)
                n, _ = ev.seq(self.nact[N](SRC))
                self.facts.add(n - ONE)
        if comps[k].op == 'mu' and comps[k].args[0] == lid:
            # the message of the sender's first pass; the ring step is checked separately
            e2 = self.sub(ev, {lid: ZERO}, rank=SRC)
            return e2(ex['first'][k])
        return self.sub(ev, {}, rank=SRC)(comps[k])

    def exchange(self, recv):
        """What the received message is: parts of the sender's payload at its first pass."""
        if recv in self.src:
            return self.src[recv]
        ex = None
        er = [e for e in self.r.events if e.kind == 'call' and callt(e) in (recv,)]
        er = er or [e for e in self.r.events if e.kind == 'call' and self.r.deep(callt(e)) is recv]
        if len({e.loc for e in er}) != 1:
            raise Unk('receive not found')
        er = er[0]
        es = [e for e in self.r.events if comm_op(e) is not None and comm_op(e)[0].lower() in ('isend', 'send', 'issend', 'bsend') and e.loops == er.loops
              and [x for x in e.pc if x[0].op != 'const'] == [x for x in er.pc if x[0].op != 'const']]
        if len(es) != 1 or not er.loops:
            raise Unk('send of the message not found')
        _, args, kw = comm_op(es[0])
        pay = self.r.deep(kw.get('obj', args[0] if args else None))
        if pay.op not in ('tuple', 'list'):
            raise Unk('message of the form %s' % show(pay, 3))
        comps = list(pay.args[0])
        lid = er.loops[-1]
        L = self.loops[lid]
        first, ring = [], True
        for k, x in enumerate(comps):
            if x.op == 'mu' and x.args[0] == lid:
                b = self.r.deep(L.back[x.args[1]])
                first.append(b)
                # later passes hand on the part received at the same position
                ring = ring and any(y.op == 'index' and y.args[0] is recv and y.args[1] in (const(k), const(k - len(comps))) for y in walk(b))
            else:
                first.append(x)
                ring = False
        dest = self.r.deep(kw.get('dest', args[1] if len(args) > 1 else NONE))
        ex = {'bases': mod_base(dest), 'lid': lid, 'payload': comps, 'first': first, 'ring': ring, 'send': es[0], 'recv': er}
        self.src[recv] = ex
        return ex


def callt(e):
    return mk('call', e.d['func'], e.d['args'], e.d['kw'])


# ---- obligations
def ensure(facts, p, what):
    """p >= 0 in this case; a small valuation of the case that breaks it is a violation."""
    if facts.ge(p):
        return
    m = facts.model([p.scale(-1) - ONE])
    if m is not None:
        raise Bad(what, m)
    raise Unk('%s: %r >= 0 not decided' % (what, p))


def ensure_eq(facts, a, b, what):
    ensure(facts, a - b, what)
    ensure(facts, b - a, what)


class Bad(Exception):
    def __init__(self, what, m):
        Exception.__init__(self, what)
        self.what, self.m = what, m

    def __str__(self):
        return '%s, for example with %s' % (self.what, ', '.join('%s=%s' % (aname(a), v) for a, v in sorted(self.m.items(), key=lambda x: aname(x[0])) if aname(a)))


def aname(a):
    if a is RANK:
        return 'rank'
    if a is NPROCS:
        return 'processes'
    if isinstance(a, str):
        return {'MVP': 'max_vecs_per_proc', 'MVN': 'max_vecs_per_node', 'SRC': 'source rank'}.get(a, a)
    if isinstance(a, tuple) and a[0] in ('S', 'E'):
        return '%s of share of %s at %s' % ({'S': 'start', 'E': 'end'}[a[0]], a[1], aname(list(a[2].atoms())[0]) if a[2].atoms() else a[2])
    if isinstance(a, tuple) and a[0] == 'lv':
        return 'iteration %s' % a[1]
    return ''


def ends_range(c):
    """A share of a range compared with the range of its ends: equal."""
    if c.op == 'cmp' and c.args[0] == '==':
        for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if b.op == 'range' and b.args[2] is const(1):
                x = a
                while x.op == 'index' and x.args[1].op == 'slice' and x.args[1].args[0] in (NONE, const(0)) and x.args[1].args[1] is NONE and x.args[1].args[2] is NONE:
                    x = x.args[0]
                if b.args[0] is mk('index', x, const(0)) and b.args[1] is mk('bin', '+', mk('index', x, const(-1)), const(1)) and x.op == 'index' \
                        and x.args[0].op == 'prim' and x.args[0].args[0] == 'parallel.find_assignments':
                    t = dict(x.args[0].args[1])['tasks']
                    return t.op == 'range' and t.args[2] is const(1)
    return False


def guard_false(m, pc, skip=()):
    """The first condition of pc that fails in this case."""
    for c, p in pc:
        if c.op == 'const' or c in skip:
            continue
        if p is True and ends_range(c):
            continue
        if c.op == 'cmp' and c.args[0] == 'is' and c.args[2] is NONE and p is False and any(x.op == 'attr' and x.args[1] == 'inner_product' for x in walk(c)):
            continue
        d = m.ev.cond(c)
        if d is None:
            raise Unk('condition %s' % show(c, 4))
        if d is not p:
            return c
    return None


def plain(L):
    if L.breaks or L.continues or L.returns or L.kind != 'for':
        raise Unk('loop with early exit')


def enter(m, lids, fixed=None):
    """Generic iterations of the loops, outermost first."""
    for lid in lids:
        L = m.loops[lid]
        plain(L)
        try:
            n = m.ev.num(L.count)
        except Unk:
            if unreached(m, m.ev):
                raise Empty()
            raise
        lv = (fixed or {}).get(lid)
        if lv is None:
            lv = Poly.atom(('lv', lid))
        m.ev = m.sub(m.ev, {lid: lv})
        m.facts.add(lv)
        m.facts.add(n - ONE - lv)
        if not m.facts.feasible():
            raise Empty()


def unreached(m, ev):
    """A condition around the store is known to fail."""
    for c, p in getattr(m, 'pc', ()):
        if c.op == 'const' or any(x.op in ('lv', 'mu', 'loopout') and x.args[0] not in ev.env and x.args[0] in m.nest for x in walk(c)):
            continue
        try:
            d = ev.cond(c)
        except Unk:
            continue
        if d is not None and d is not p:
            return True
    return False


class Empty(Exception):
    """No such iteration."""


def inputs_of(m, name, n):
    m.lists[name] = n


def every_case(chk, rule, construct, loc, base, run):
    """run(Facts) in all cases; collects violations."""
    try:
        for f, res in cells(base, run, 3000):
            pass
    except Bad as e:
        chk.violate(rule, construct, loc, str(e))
        return False
    except (Unk, Undecided) as e:
        raise Undecided('%s: %s' % (rule, e))
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError) as e:
        if os.environ.get('SA_DEBUG'):
            import traceback
            traceback.print_exc()
        raise Undecided('%s: %s' % (rule, e))
    return ''


def empty_ok(fn):
    def run(f):
        try:
            return fn(f)
        except Empty:
            return None
        except IndexError as e:
            if 'tuple index' in str(e):
                m = f.model()
                if m is not None:
                    raise Bad('an element of an empty list is read', m)
            raise
    return run


def used_loops(t, lids):
    return [l for l in lids if any(x.op in ('lv', 'mu', 'loopout') and x.args[0] == l for x in walk(t))]


# ---- P07
class Nest(object):
    """One store of inner products in an array built by np.zeros."""

    def __init__(self, r, e, lists):
        self.r, self.e, self.lists = r, e, lists
        self.idx = r.deep(e.d['index'])
        self.val = r.deep(e.d['value'])
        self.pc = [(r.deep(c), p) for c, p in e.pc]
        self.loops = list(e.loops)
        self.passes = []

    def model(self, f):
        m = Model(self.r, dict(self.lists), f)
        m.pc, m.nest = self.pc, self.loops
        return m


def root(r, t):
    """The array creation a stored-into value goes back to."""
    for _ in range(60):
        if t.op in ('mu', 'loopout'):
            t = t.args[2] if t.op == 'loopout' else r.an.loops[t.args[0]].init.get(t.args[1])
        elif t.op in ('store', 'mutated'):
            t = t.args[0]
        elif t.op == 'phi':
            a, b = root(r, t.args[1]), root(r, t.args[2])
            return a if a is b else None
        else:
            return t
        if t is None:
            return None
        t = r.deep(t)
    return None


ZEROS = ('numpy.zeros', 'np.zeros', 'numpy.empty', 'numpy.full', 'numpy.ones')


def is_alloc(t):
    return t is not None and t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ZEROS


def untouched(r, alloc):
    """Are elements that are not stored zero?"""
    n = alloc.args[0].args[0]
    if n == 'numpy.zeros':
        return True
    if n != 'numpy.empty':
        raise Undecided('array created by %s' % n)
    for e in r.events:
        if e.kind in ('mutcall', 'aug') and isinstance(e.d.get('target'), T) and root(r, r.deep(e.d['target'])) is alloc:
            raise Undecided('the array is filled at %s' % e.loc)
    return False


def array_stores(r):
    out = []
    for e in r.events:
        if e.kind == 'store':
            b = root(r, r.deep(e.d['target']))
            if is_alloc(b):
                carried(r, r.deep(e.d['target']), set())
                out.append((e, b))
        elif e.kind == 'aug' and e.loops and isinstance(e.d.get('target'), T):
            b = root(r, r.deep(e.d['target']))
            if is_alloc(b):
                raise Undecided('the array is updated in place at %s' % e.loc)
    return out


def carried(r, t, done):
    """The container is carried through its loops by element stores only."""
    t = r.deep(t)
    if t.op in ('mu', 'loopout'):
        k = t.args[:2]
        if k in done:
            return
        done.add(k)
        b = r.an.loops[k[0]].back.get(k[1])
        if b is None:
            raise Undecided('value carried by a loop')
        carried(r, b, done)
        if t.op == 'loopout':
            carried(r, t.args[2], done)
        else:
            carried(r, r.an.loops[k[0]].init.get(k[1]), done)
    elif t.op in ('store', 'mutated'):
        carried(r, t.args[0], done)
    elif t.op == 'phi':
        carried(r, t.args[1], done)
        carried(r, t.args[2], done)
    elif not is_alloc(t):
        raise Undecided('the array is replaced by %s' % show(t, 3))


class Peel(object):
    def __init__(self, m):
        self.m = m
        self.T = self.cj = self.red = False

    def __call__(self, t):
        m = self.m
        if t.op == 'phi':
            d = m.ev.cond(t.args[0])
            if d is None:
                raise Unk('condition %s' % show(t.args[0], 4))
            return self(t.args[1] if d else t.args[2])
        if t.op == 'attr' and t.args[1] == 'T':
            self.T = not self.T
            return self(t.args[0])
        if t.op == 'mcall' and not t.args[2]:
            if t.args[1] in ('conj', 'conjugate'):
                self.cj = not self.cj
                return self(t.args[0])
            if t.args[1] == 'transpose':
                self.T = not self.T
                return self(t.args[0])
            if t.args[1] == 'copy':
                return self(t.args[0])
        if t.op == 'mcall' and t.args[1] == 'allreduce' and len(t.args[2]) == 1 and not t.args[3]:
            if self.red:
                raise Unk('summed twice')
            self.red = True
            return self(t.args[2][0])
        if t.op == 'call' and t.args[0].op == 'ext' and len(t.args[1]) == 1:
            n = t.args[0].args[0]
            if n in ('numpy.conj', 'numpy.conjugate'):
                self.cj = not self.cj
                return self(t.args[1][0])
            if n == 'numpy.transpose':
                self.T = not self.T
                return self(t.args[1][0])
            if n in ('numpy.array', 'numpy.asarray', 'numpy.copy'):
                return self(t.args[1][0])
        return t


def the_vec(v):
    """(list name, index) of an evaluated vector."""
    if isinstance(v, tuple) and v[0] == 'vec':
        return v[1], v[2]
    raise Unk('vector %r' % (v,))


def pass_loop(r, lids):
    """The loop of the exchange among lids, and the term received."""
    out = []
    for e in r.events:
        o = comm_op(e)
        if o is not None and o[0].lower() in ('recv', 'irecv', 'sendrecv') and e.loops and e.loops[-1] in lids:
            out.append((e.loops[-1], e))
    return out


def ring_step(m, ex, lid):
    """+1/-1: each pass takes the data one process further; 0: pass p takes it p processes further."""
    from .p2p import Cong, shift
    _, args, kw = comm_op(ex['send'])
    dest = m.r.deep(kw.get('dest', args[1] if len(args) > 1 else None))
    lvt = mk('lv', lid, m.loops[lid].count)
    a = shift(Cong(m.r, PN), Cong(m.r, PN)(dest))
    if a.isconst():
        return int(a.value())
    for x in a.atoms():
        if isinstance(x, T) and x.op == 'lv' and x.args[0] == lid and a in (Poly.atom(x), Poly.atom(x).scale(-1)):
            return 0
    raise Undecided('partner %r' % a)


def count(m, ev, lid):
    """Number of iterations (0 when not positive)."""
    plain(m.loops[lid])
    try:
        n = ev.num(m.loops[lid].count)
    except Unk:
        if unreached(m, ev):
            return ZERO
        raise
    return n if ev.ge(n - ONE) else ZERO


def covered(chk, what, nest, loc, lids, label, n, owner, fixed, extra=None, rule='every entry', exact=False, tasks=None):
    """The labels over the loops lids run through the whole share of owner (of 0..n-1) without a gap."""
    r = nest.r
    P1 = r.world != 'mpiN'
    S = E = None

    def start(f):
        nonlocal S, E
        m = nest.model(f)
        for lid, v in (fixed or {}).items():
            m.ev = m.sub(m.ev, {lid: v})
            if not v.isconst():
                f.add(v)
                f.add(m.ev.num(m.loops[lid].count) - ONE - v)
        if extra:
            extra(m)
        nn, off = n, ZERO
        if tasks is not None:
            nn, g = m.ev.seq(m.ev(tasks))
            if nn == ZERO:
                raise Empty()
            off = g(ZERO)
        key = repr(nn)
        S = ZERO if P1 else Poly.atom(('S', key, owner))
        E = nn if P1 else Poly.atom(('E', key, owner))
        for p in (S, E - S - ONE, nn - E):
            f.add(p)
        if not P1:
            m.domains[key] = nn
        S, E = S + off, E + off
        if not f.feasible():
            raise Empty()
        return m

    def lab(m, ev):
        v = ev(label)
        if not isinstance(v, Poly):
            raise Unk('label %r' % (v,))
        return v

    def seg(m, ev, lid, base=None):
        """(count, first label) of the innermost loop, steps checked."""
        k = count(m, ev, lid)
        if k == ZERO:
            return ZERO, None
        a0 = lab(m, m.sub(ev, {lid: ZERO}))
        j = Poly.atom(('lv', lid))
        return k, a0

    def steps(f):
        """Consecutive iterations of the innermost loop have consecutive labels."""
        m = start(f)
        ev = m.ev
        if len(lids) == 2:
            a = Poly.atom(('lv', lids[0]))
            f.add(a)
            f.add(ev.num(m.loops[lids[0]].count) - ONE - a)
            ev = m.sub(ev, {lids[0]: a})
        j = Poly.atom(('lv', lids[-1]))
        f.add(j)
        f.add(count(m, ev, lids[-1]) - K(2) - j)
        if not f.feasible():
            return
        x, y = lab(m, m.sub(ev, {lids[-1]: j})), lab(m, m.sub(ev, {lids[-1]: j + ONE}))
        ensure(f, x + ONE - y, '%s: consecutive steps skip a vector' % what)
        if exact:
            ensure(f, y - x - ONE, '%s: consecutive steps repeat a vector' % what)

    def first(f):
        m = start(f)
        ev = m.ev
        if len(lids) == 2:
            R = ev.num(m.loops[lids[0]].count)
            ensure(f, R - ONE, '%s: no chunk although the process has vectors' % what)
            ev = m.sub(ev, {lids[0]: ZERO})
        k, a0 = seg(m, ev, lids[-1])
        if k == ZERO:
            ensure(f, K(-1), '%s: nothing is done in the first chunk' % what)
        ensure(f, S - a0, '%s: starts after the first vector of the share' % what)
        if exact:
            ensure(f, a0 - S, '%s: starts before the share' % what)
        if len(lids) == 1:
            ensure(f, a0 + k - E, '%s: stops before the last vector of the share' % what)
            if exact:
                ensure(f, E - a0 - k, '%s: goes beyond the share' % what)

    def nxt(f):
        m = start(f)
        a = Poly.atom(('lv', lids[0]))
        R = m.ev.num(m.loops[lids[0]].count)
        f.add(a)
        f.add(R - K(2) - a)
        if not f.feasible():
            return
        e0, e1 = m.sub(m.ev, {lids[0]: a}), m.sub(m.ev, {lids[0]: a + ONE})
        k1, b1 = seg(m, e1, lids[-1])
        k0, b0 = seg(m, e0, lids[-1])
        if k0 == ZERO:
            if k1 != ZERO:
                ensure(f, K(-1), '%s: an empty chunk before the end' % what)
            return
        if k1 == ZERO:
            ensure(f, b0 + k0 - E, '%s: chunks end before the last vector of the share' % what)
        else:
            ensure(f, b0 + k0 - b1, '%s: vectors between two chunks are left out' % what)
            if exact:
                ensure(f, b1 - b0 - k0, '%s: chunks overlap' % what)

    def last(f):
        m = start(f)
        R = m.ev.num(m.loops[lids[0]].count)
        f.add(R - ONE)
        k, b = seg(m, m.sub(m.ev, {lids[0]: R - ONE}), lids[-1])
        if k != ZERO:
            ensure(f, b + k - E, '%s: the last chunk ends before the last vector of the share' % what)
            if exact:
                ensure(f, E - b - k, '%s: the last chunk goes beyond the share' % what)
    if not 1 <= len(lids) <= 2:
        raise Undecided('%s: %d loops' % (what, len(lids)))
    for fn in (steps, first) + ((nxt, last) if len(lids) == 2 else ()):
        if every_case(chk, rule, what, loc, [], empty_ok(fn)) is False:
            return False
    return ''


def passes(chk, r, lists, plid, recv, construct, loc, exact=False):
    """The passes of loop plid bring the vectors of every process to every process."""
    m = Model(r, dict(lists), Facts())
    n = m.ev.num(r.an.loops[plid].count)
    if m.facts.model([PN - ONE - n]) is not None or (exact and m.facts.model([n - PN - ONE]) is not None):
        chk.violate('passes', construct, loc, 'the vectors are passed on %r times instead of once per process' % n)
        return False
    if not m.facts.ge(n - PN):
        raise Undecided('number of passes %r' % n)
    ex = m.exchange(callt_of(r, recv))
    sh = ring_step(m, ex, plid)
    if sh in (1, -1):
        if not ex['ring']:
            chk.violate('passes', construct, ex['send'].loc, 'the message is not what was received in the pass before')
            return False
    elif sh == 0:
        if ex['ring']:
            chk.violate('passes', construct, ex['send'].loc, 'data already passed on is sent to a process further each time')
            return False
    else:
        chk.violate('passes', construct, ex['send'].loc, 'data is passed on %d processes further: not every process receives it' % sh)
        return False
    return ''


def p07_world(chk, w, meth='compute_inner_product_array'):
    r = analyse(w, meth)
    res = r.deep(r.result)
    NR, NC = Poly.atom('rows'), Poly.atom('cols')
    lists = {'row_vec_handles': NR, 'col_vec_handles': NC}
    construct = 'vectorspace.VectorSpaceHandles.' + meth
    m0 = Model(r, dict(lists), Facts())
    st = array_stores(r)
    if len({e.loc for e, _ in st}) != 1 or len(st) != 1:
        raise Undecided('%d stores into the array' % len(st))
    e, alloc = st[0]
    fresh = untouched(r, alloc)
    if e.d.get('op', '=') != '=':
        raise Undecided('update in place')
    loc = e.loc
    nest = Nest(r, e, lists)
    if nest.idx.op != 'tuple' or len(nest.idx.args[0]) != 2:
        raise Undecided('index %s' % show(nest.idx, 3))
    ri, ci = nest.idx.args[0]
    pl = [x for x in pass_loop(r, nest.loops)] if w == 'mpiN' else []
    if len({x[0] for x in pl}) > 1:
        raise Undecided('several exchanges')
    plid = pl[0][0] if pl else None
    if w == 'mpiN' and plid is None:
        raise Undecided('no exchange among the loops of the store')
    uses = {'row': set(), 'col': set()}

    def label(f):
        m = nest.model(f)
        pe = Peel(m)
        base = pe(res)
        if root(r, base) is not alloc:
            raise Unk('the result is %s' % show(base, 3))
        if w == 'mpiN' and not pe.red:
            raise Bad('each process returns only the entries it computed itself', {})
        if pe.red and not fresh:
            raise Bad('the arrays that are summed over the processes are not zero where a process computes nothing', {})
        enter(m, nest.loops)
        g = guard_false(m, nest.pc)
        if g is not None:
            if f.model() is not None:
                raise Bad('an entry is not computed when %s fails' % show(g, 4), f.model())
            if f.feasible():
                raise Unk('guard %s' % show(g, 4))
            return
        rho, kap = m.ev.num(ri), m.ev.num(ci)
        v = m.ev(nest.val)
        if not isinstance(v, Opq) or v.key[0] != 'ip':
            raise Unk('stored value %r' % (v,))
        A, B = v.key[1], v.key[2]
        if pe.cj:
            A, B = B, A
        I, J = (kap, rho) if pe.T else (rho, kap)
        (la, ia), (lb, ib) = the_vec(A), the_vec(B)
        if (la, lb) != ('row_vec_handles', 'col_vec_handles'):
            raise Bad('the entry is the inner product of a vector of %s with a vector of %s' % (la, lb), {})
        ensure_eq(f, ia, I, 'row vector and row index of the entry differ')
        ensure_eq(f, ib, J, 'column vector and column index of the entry differ')
        nr = lists[la] if not pe.T else lists[lb]
        nc = lists[lb] if not pe.T else lists[la]
        for k, n in ((0, nr), (1, nc)):
            s = alloc.args[1][0] if alloc.args[1] else dict(alloc.args[2]).get('shape')
            d = m.ev(s)
            if not isinstance(d, tuple) or len(d) != 2:
                raise Unk('shape %r' % (d,))
            ensure_eq(f, d[k], n, 'the array has another number of %s than there are vectors' % ('rows', 'columns')[k])
        if w == 'mpiN':
            key = repr(nr)
            S, E = Poly.atom(('S', key, PR)), Poly.atom(('E', key, PR))
            if not (rho.atoms() & set(list(S.atoms()) + list(E.atoms()))):
                raise Unk('rows are not divided by shares')
            ensure(f, rho - S, 'a process computes rows of another process')
            ensure(f, E - ONE - rho, 'a process computes rows of another process')
        for nm, p in (('row', rho), ('col', kap)):
            uses[nm] |= {a[1] for a in p.atoms() if isinstance(a, tuple) and a[0] == 'lv'}
        return
    if every_case(chk, 'entry pairs its row and column vector', construct, loc, [], empty_ok(label)) is False:
        return False
    rl = [l for l in nest.loops if l in uses['row'] and l != plid]
    cl = [l for l in nest.loops if l in uses['col'] and l != plid]
    if set(rl) & set(cl):
        raise Undecided('rows and columns share a loop')
    if plid is not None and passes(chk, r, lists, plid, pl[0][1], construct, loc) is False:
        return False
    # which list the rows of the array are
    def axis(nm):
        lids = rl if nm == 'row' else cl
        t = ri if nm == 'row' else ci
        for order in (True, False):
            n = {('row', False): 'row_vec_handles', ('row', True): 'col_vec_handles', ('col', False): 'col_vec_handles', ('col', True): 'row_vec_handles'}[(nm, order)]
            n = lists[n]

            def extra(m, o=order):
                pe = Peel(m)
                pe(res)
                if pe.T is not o:
                    raise Empty()
            if nm == 'row' or plid is None:
                vs = [(PR, {})]
                if plid is not None:
                    vs = [(PR, {plid: ZERO})]
            else:
                p = Poly.atom(('lv', plid))
                vs = [(PR, {plid: ZERO}), (SRC, {plid: p})]
            for owner, fixed in vs:
                def ex2(m, fx=fixed):
                    extra(m)
                    for v in fx.values():
                        if not v.isconst():
                            m.facts.add(v - ONE)
                            m.facts.add(m.P - ONE - v)
                if covered(chk, '%ss of the array%s' % (nm, ' (received)' if owner is SRC else ''), nest, loc, lids, t, n, owner, fixed, ex2) is False:
                    return False
        return ''
    for nm in ('row', 'col'):
        if axis(nm) is False:
            return False
    return 'loops %s; rows over %s, columns over %s%s' % (len(nest.loops), len(rl), len(cl), ', passes over all processes' if plid else '')


def callt_of(r, e):
    return r.deep(callt(e))


@prop('P07', 'index algebra over symbolic shares, chunks and passes: pairing, gap-free coverage and summation of the inner product array',
      'find_assignments divides 0..n-1 in contiguous shares (P06); messages arrive as sent (P02)')
def p07(chk):
    for w in ('nompi', 'mpi1', 'mpiN'):
        chk.ob('compute_inner_product_array [%s]' % w, p07_world, chk, w)


# ---- P09
def chain(r, t):
    """(loops the value is carried through, creation term) of a container updated in place."""
    lids = []
    for _ in range(80):
        if t.op == 'mu':
            lids.append(t.args[0])
            t = r.an.loops[t.args[0]].init.get(t.args[1])
        elif t.op == 'loopout':
            lids.append(t.args[0])
            t = t.args[2]
        elif t.op in ('store', 'mutated'):
            t = t.args[0]
        elif t.op == 'phi':
            a, b = chain(r, t.args[1]), chain(r, t.args[2])
            if a[1] is b[1]:
                return lids + [x for x in a[0] if x in b[0]], a[1]
            return lids, t
        else:
            return lids, t
        if t is None:
            return lids, None
        t = r.deep(t)
    return lids, None


def is_none(c):
    """The term tested by `x is None` / `x == None`."""
    if c.op == 'cmp' and c.args[0] in ('is', '==') and c.args[2] is NONE:
        return c.args[1]
    return None


def factor_of(m, ev, t):
    """(vector, coefficient term) of a product."""
    if t.op == 'bin' and t.args[0] == '*':
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            b2 = strip_scalar(b)
            if b2.op == 'index' and b2.args[1].op == 'tuple' and len(b2.args[1].args[0]) == 2 and any(x is sym('coeff_array') for x in walk(b2.args[0])):
                v = ev(a)
                if isinstance(v, Opq) and v.key[0] == 'vec':
                    return v.key, b2
    raise Unk('contribution %s' % show(t, 4))


def strip_scalar(t):
    while t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.complex',) and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def contributions(r, stores):
    """[(event, container, slot index, contribution, what: init/add/both, other conditions)]"""
    out = []
    for e in stores:
        tg, ix, val = r.deep(e.d['target']), r.deep(e.d['index']), r.deep(e.d['value'])
        slot = mk('index', tg, ix)
        pc = [(r.deep(c), p) for c, p in e.pc]
        none = None
        rest = []
        for c, p in pc:
            x = is_none(c)
            if x is not None and x is slot:
                none = p
            else:
                rest.append((c, p))

        def parts(v):
            if v.op == 'phi' and is_none(v.args[0]) is slot:
                return [('init', x) for k, x in parts(v.args[1])] + [('add', x) for k, x in parts(v.args[2]) if k == 'add']
            if v.op == 'bin' and v.args[0] == '+':
                if v.args[1] is slot:
                    return [('add', v.args[2])]
                if v.args[2] is slot:
                    return [('add', v.args[1])]
            return [('set', v)]
        ps = parts(val)
        for k, v in ps:
            if k == 'set':
                k = 'init'
                if none is None:
                    k = 'overwrite'
            elif k == 'add' and none is True:
                k = 'add-none'
            elif k == 'init' and none is False:
                continue
            elif k == 'add' and none is None and len(ps) == 1:
                k = 'add-any'
            out.append((e, tg, ix, v, k, rest))
    return out


def zero_counters(t):
    """A conjunction of loop counters being zero."""
    if t.op == 'bool' and t.args[0] == 'and':
        return all(zero_counters(x) for x in t.args[1])
    if t.op == 'cmp' and t.args[0] == '==':
        return any(b is const(0) and (a.op == 'lv' or a.op == 'index' and a.args[0].op in ('range', 'rangelen') and a.args[1].op == 'lv') for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])))
    if t.op == 'not':
        return t.args[0].op == 'lv'
    return False


def p09_world(chk, w):
    meth = 'lin_combine'
    r = analyse(w, meth)
    NS, NB = Poly.atom('sums'), Poly.atom('bases')
    lists = {'sum_vec_handles': NS, 'basis_vec_handles': NB}
    construct = 'vectorspace.VectorSpaceHandles.' + meth
    puts = [e for e in r.events if e.kind == 'mcall' and e.d['name'] == 'put']
    if len(puts) != 1 or len(puts[0].d['args']) != 1:
        raise Undecided('%d places where a sum is put' % len(puts))
    put = puts[0]
    ploc = put.loc
    recv, arg = r.deep(put.d['recv']), r.deep(put.d['args'][0])
    if recv.op != 'index' or arg.op != 'index':
        raise Undecided('put of %s' % show(arg, 3))
    plids, alloc = chain(r, arg.args[0])
    if alloc is None:
        raise Undecided('container of the sums')
    ups = []
    for e in r.events:
        if e.kind == 'store':
            c = chain(r, r.deep(e.d['target']))
            if c[1] is alloc:
                ups.append(e)
        elif e.kind == 'mutcall' and isinstance(e.d.get('target'), T) and chain(r, r.deep(e.d['target']))[1] is alloc:
            raise Undecided('the list of sums is changed by a method at %s' % e.loc)
    cs = contributions(r, ups)
    if not cs:
        raise Undecided('no accumulation found')
    if len({(c[0].loops, c[1], c[2], c[3]) for c in cs}) != 1:
        if len({c[0].loops for c in cs}) == 1 and len({c[2] for c in cs}) == 1 and {c[4] for c in cs} == {'init', 'add'}:
            pass    # the first contribution and the later ones are written differently: judged one by one
        else:
            raise Undecided('several accumulations')
    kinds = {c[4] for c in cs}
    loc = cs[0][0].loc
    if 'add-none' in kinds:
        raise Undecided('addition to None')
    if kinds == {'init'}:
        chk.violate('accumulation', construct, loc, 'only the first basis vector enters a sum: nothing is added later')
        return False
    if 'overwrite' in kinds:
        if kinds == {'overwrite'}:
            chk.violate('accumulation', construct, loc, 'the sum is replaced by the latest contribution')
            return False
        first = [c for c in cs if c[4] == 'overwrite']
        later = [c for c in cs if c[4] == 'add-any']
        if w == 'mpiN' and len(first) == len(later) == 1 and first[0][0].loops == later[0][0].loops and first[0][1:3] == later[0][1:3]:
            extra = [x for x in first[0][5] if x not in later[0][5]]
            if extra and all(p and zero_counters(t) for t, p in extra):
                chk.violate('accumulation', construct, first[0][0].loc,
                            'the first contribution is recognised by loop counters: a process without a vector in the first pass never starts its sums, for example with bases=1, NPROCS=2, rank=1')
                return False
        raise Undecided('overwriting')
    if kinds not in ({'init', 'add'},):
        raise Undecided('accumulation by %s' % sorted(kinds))
    e0 = cs[0][0]
    nest = Nest(r, e0, lists)
    ix = cs[0][2]
    pnest = Nest.__new__(Nest)
    pnest.r, pnest.e, pnest.lists = r, put, lists
    pnest.pc = [(r.deep(c), p) for c, p in put.pc]
    pnest.loops = list(put.loops)
    shapes = []

    def skip(pc):
        """Without the argument checks (conditions on the shape of the coefficients, decided elsewhere)."""
        return [(c, p) for c, p in pc if not any(x is sym('coeff_array') or x is sym('coeff_array_col_indices') for x in walk(c))]
    for c in cs:
        nest.pc = skip(c[5])
        # the remaining conditions must not depend on coefficient values
        for q, p in c[5]:
            if (q, p) not in nest.pc and any(x.op in ('lv', 'mu') for x in walk(q)):
                raise Undecided('condition %s' % show(q, 4))
    pnest.pc = skip(pnest.pc)
    pl = [x for x in pass_loop(r, nest.loops)] if w == 'mpiN' else []
    if len({x[0] for x in pl}) > 1:
        raise Undecided('several exchanges')
    plid = pl[0][0] if pl else None
    if w == 'mpiN' and plid is None:
        raise Undecided('no exchange among the loops of the sums')
    outer = [l for l in nest.loops if l in pnest.loops]
    inner = [l for l in nest.loops if l not in outer]
    if nest.loops[:len(outer)] != outer or pnest.loops[:len(outer)] != outer:
        raise Undecided('nesting')
    # the list of sums: created for each chunk of outputs, kept through all contributions
    ulids, _ = chain(r, cs[0][1])
    for l in outer:
        if l in ulids or l in plids:
            chk.violate('accumulation', construct, loc, 'the sums are not reset for the next outputs')
            return False
    uses = {'sum': set(), 'basis': set(), 'put': set()}
    al = alloc
    bases = {}

    def update(f, c):
        m = nest.model(f)
        enter(m, nest.loops)
        g = guard_false(m, nest.pc)
        if g is not None:
            if f.model() is not None:
                raise Bad('a contribution is not added when %s fails' % show(g, 4), f.model())
            raise Unk('guard %s' % show(g, 4))
        v, co = factor_of(m, m.ev, c[3])
        nm, i = the_vec(v)
        if nm != 'basis_vec_handles':
            raise Bad('a vector of %s is summed' % nm, {})
        ci, cj = (m.ev.num(x) for x in co.args[1].args[0])
        ensure_eq(f, ci, i, 'the coefficient of another basis vector is used')
        sg = m.ev.num(ix)
        n, _ = m.ev.seq(m.ev(al))
        ensure(f, sg, 'slot of the sum')
        ensure(f, n - ONE - sg, 'slot of the sum')
        bases.setdefault(('update', tuple(f.f)), cj - sg)
        for nm2, p in (('basis', i), ('sum', cj)):
            uses[nm2] |= {a[1] for a in p.atoms() if isinstance(a, tuple) and a[0] == 'lv'}
        # the same output is put from this slot
        e2 = m.sub(m.ev, {})
        e2.env = {l: m.ev.env[l] for l in outer}
        f2 = f
        k = Poly.atom(('lv', pnest.loops[-1])) if len(pnest.loops) > len(outer) else None
        if k is None or len(pnest.loops) != len(outer) + 1:
            raise Unk('nesting of the put')
        e2 = m.sub(e2, {pnest.loops[-1]: k})
        pn = e2.num(m.loops[pnest.loops[-1]].count)
        f.add(k)
        f.add(pn - ONE - k)
        if not f.feasible():
            return
        ps, pj = e2.num(arg.args[1]), e2.num(recv.args[1])
        ensure_eq(f, pj - ps, cj - sg, 'the sum of other coefficients is put in the handle')
        shapes.append(1)
    for c in cs:
        if every_case(chk, 'coefficients and handles of a sum', construct, loc, [], empty_ok(lambda f: update(f, c))) is False:
            return False
    if not bases:
        chk.violate('every basis vector once', construct, loc, 'no basis vector ever enters a sum: the loops over the contributions are always empty')
        return False
    bl = [l for l in inner if l in uses['basis'] and l != plid]
    sl = [l for l in inner if l in uses['sum'] and l != plid]
    if set(bl) & set(sl) or set(bl) | set(sl) | {plid} != set(inner) | {plid}:
        raise Undecided('loops of the accumulation')
    for l in inner:
        if l not in ulids and l != inner[-1] and l in plids:
            raise Undecided('accumulation in %s' % l)
    first = inner[0]
    missing = [l for l in inner if l not in ulids]
    if missing:
        raise Undecided('the list of sums is created inside a loop over contributions')

    def putcase(f):
        m = pnest.model(f)
        enter(m, pnest.loops)
        g = guard_false(m, pnest.pc)
        if g is not None:
            if f.model() is not None:
                raise Bad('an output is not put when %s fails' % show(g, 4), f.model())
            raise Unk('guard %s' % show(g, 4))
        h = m.ev(recv)
        if not isinstance(h, Opq) or h.key[0] != 'h' or h.key[1] != 'sum_vec_handles':
            raise Unk('put in %r' % (h,))
        j = h.key[2]
        if w == 'mpiN':
            S, E = Poly.atom(('S', repr(NS), PR)), Poly.atom(('E', repr(NS), PR))
            if not (j.atoms() & (S.atoms() | E.atoms())):
                raise Unk('outputs are not divided by shares')
            ensure(f, j - S, 'a process puts the outputs of another process')
            ensure(f, E - ONE - j, 'a process puts the outputs of another process')
        uses['put'] |= {a[1] for a in j.atoms() if isinstance(a, tuple) and a[0] == 'lv'}
        # the slot is one that contributions reach
        ps = m.ev.num(arg.args[1])
        e2 = m.sub(m.ev, {})
        e2.env = {l: m.ev.env[l] for l in outer}
        if len(sl) != 1:
            raise Unk('loops over the outputs')
        n = e2.num(m.loops[sl[0]].count)
        z = m.sub(e2, {sl[0]: ZERO}).num(ix)
        y = m.sub(e2, {sl[0]: Poly.atom(('lv', sl[0]))}).num(ix)
        if y - z != Poly.atom(('lv', sl[0])):
            raise Unk('slots of the contributions')
        ensure(f, ps - z, 'an output is put that got no contributions')
        ensure(f, z + n - ONE - ps, 'an output is put that got no contributions')
    if every_case(chk, 'outputs are put', construct, ploc, [], empty_ok(putcase)) is False:
        return False
    # every output exactly once
    own = [(PR, {})]
    if covered(chk, 'outputs put', pnest, ploc, [l for l in pnest.loops if l in uses['put']], recv.args[1], NS, PR, {}, None, 'every output once', True) is False:
        return False
    if [l for l in pnest.loops if l not in uses['put']]:
        raise Undecided('loops around the put')
    # every basis vector exactly once
    if plid is not None and passes(chk, r, lists, plid, pl[0][1], construct, loc, True) is False:
        return False
    bt = None
    for c in cs:
        co = factor_term(c[3])
        bt = co.args[1].args[0][0]
        vs = [(PR, {plid: ZERO} if plid else {})] + ([(SRC, {plid: Poly.atom(('lv', plid))})] if plid else [])
        for owner, fixed in vs:
            def ex2(m, fx=fixed):
                for v in fx.values():
                    if not v.isconst():
                        m.facts.add(v - ONE)
                        m.facts.add(m.P - ONE - v)
            if covered(chk, 'basis vectors%s' % (' (received)' if owner is SRC else ''), nest, loc, bl, bt, NB, owner, fixed, ex2, 'every basis vector once', True) is False:
                return False
        if c[3] is cs[0][3] and all(x[3] is c[3] for x in cs):
            break
    return '%d outputs loops, %d basis loops%s' % (len(sl), len(bl), ', passes over all processes' if plid else '')


def coefficients(chk, w):
    """The coefficient array used is the caller's, with the chosen columns; 1D coefficients become a row or column."""
    from ..arr import Inp, elem
    r = analyse(w, 'lin_combine')
    NS, NB, NCOL, I, J = (Poly.atom(x) for x in ('sums', 'bases', 'columns', 'i', 'j'))
    lists = {'sum_vec_handles': NS, 'basis_vec_handles': NB}
    construct = 'vectorspace.VectorSpaceHandles.lin_combine'
    found = {}
    for e in r.events:
        if e.kind == 'store':
            v = r.deep(e.d.get('rhs', e.d['value']))
            for x in walk(v):
                if x.op == 'index' and x.args[1].op == 'tuple' and len(x.args[1].args[0]) == 2 and any(y is sym('coeff_array') for y in walk(x.args[0])) \
                        and any(y.op == 'lv' for z in x.args[1].args[0] for y in walk(z)):
                    found[x.args[0]] = e
    if len(found) != 1:
        raise Undecided('%d coefficient arrays' % len(found))
    (X, e), = found.items()
    pcs = [(r.deep(c), p) for c, p in e.pc]
    pcs = [(c, p) for c, p in pcs if any(y is sym('coeff_array') for y in walk(c)) and not any(y.op in ('lv', 'mu') for y in walk(c))]
    cols = lambda i: Poly.atom(('cols', i))
    k0 = Poly.atom('column')
    configs = [
        ('2D coefficients', [], 2, [NB, NS], NON, lambda: elem('C', [I, J])),
        ('2D coefficients and columns', [NCOL - ONE], 2, [NB, NCOL], Lst(NS, cols), lambda: elem('C', [I, cols(J)])),
        ('2D coefficients and one column number', [NCOL - ONE, NS - ONE, ONE - NS, k0, NCOL - ONE - k0], 2, [NB, NCOL], k0, lambda: elem('C', [I, k0])),
        ('1D coefficients of several bases', [NB - K(2), NS - ONE, ONE - NS], 1, [NB], NON, lambda: elem('C', [I])),
        ('1D coefficients of one basis', [NB - ONE, ONE - NB], 1, [NS], NON, lambda: elem('C', [J])),
    ]
    for name, base, nd, dims, ci, want in configs:
        def run(f):
            f.add(I)
            f.add(J)
            f.add(NB - ONE - I)
            f.add(NS - ONE - J)
            m = Model(r, dict(lists), f)
            m.ev.inputs[sym('coeff_array')] = Inp('C', nd, dims=dims)
            m.ev.inputs[sym('coeff_array_col_indices')] = ci
            for c, p in pcs:
                d = m.ev.cond(c)
                if d is None:
                    raise Unk('condition %s' % show(c, 4))
                if d is not p:
                    raise Bad('%s: valid coefficients are rejected by %s' % (name, show(c, 4)), f.model() or {})
            x = m.ev.asarr(m.ev(X))
            if len(x.shape) != 2:
                raise Bad('%s: the coefficients used have %d dimensions' % (name, len(x.shape)), {})
            ensure_eq(f, x.shape[0], NB, '%s: number of rows' % name)
            ensure_eq(f, x.shape[1], NS, '%s: number of columns' % name)
            g = x.get([I, J])
            if g != want():
                q = list(g.atoms())
                if len(g.d) == 1 and len(q) == 1 and isinstance(q[0], tuple) and q[0][0] == 'el' and list(g.d.values()) == [1] and not q[0][2]:
                    w0 = list(want().atoms())[0]
                    for a, b in zip(q[0][3], w0[3]):
                        ensure_eq(f, a, b, '%s: coefficient (i, j) is taken from another place' % name)
                    return
                raise Bad('%s: coefficient (i, j) is replaced by %r' % (name, g), {}) if all(isinstance(a, tuple) and a[0] == 'el' for a in q) else Unk('%s: coefficient %r' % (name, g))
        if every_case(chk, 'coefficients', construct, e.loc, base + [NB - ONE, NS - ONE], empty_ok(run)) is False:
            return False
    return '%d forms of coefficients' % len(configs)


def factor_term(t):
    for b in (t.args[1], t.args[2]):
        b = strip_scalar(b)
        if b.op == 'index' and b.args[1].op == 'tuple' and len(b.args[1].args[0]) == 2 and any(x is sym('coeff_array') for x in walk(b.args[0])):
            return b
    raise Undecided('contribution %s' % show(t, 4))


@prop('P09', 'index algebra over symbolic shares, chunks and passes: each basis vector enters each sum once with its coefficient, each sum is put once',
      'find_assignments divides 0..n-1 in contiguous shares (P06); messages arrive as sent (P02)')
def p09(chk):
    for w in ('nompi', 'mpi1', 'mpiN'):
        chk.ob('lin_combine [%s]' % w, p09_world, chk, w)
    chk.ob('lin_combine: coefficients', coefficients, chk, 'nompi')


# ---- P08
def prims_in(t, q='parallel.find_assignments'):
    return {x for x in walk(t) if x.op == 'prim' and x.args[0] == q}


def window(chk, r, what, loc, lists, lid, tasks, outer, lo, hi, construct):
    """The ranges `tasks` over the iterations of lid run from lo to hi without a gap."""
    def start(f):
        m = Model(r, dict(lists), f)
        for l in outer:
            n = m.ev.num(m.loops[l].count)
            lv = Poly.atom(('lv', l))
            f.add(lv)
            f.add(n - ONE - lv)
            m.ev = m.sub(m.ev, {l: lv})
        return m

    def rng(m, i):
        ev = m.sub(m.ev, {lid: i})
        n, g = ev.seq(ev(tasks))
        return g(ZERO) if n != ZERO else None, n

    def none(f):
        m = start(f)
        L, H = lo(m), hi(m)
        f.add(H - L - ONE)
        if not f.feasible():
            return
        R = count(m, m.ev, lid)
        ensure(f, R - ONE, '%s: no range although vectors remain' % what)
        a, n = rng(m, ZERO)
        if a is None:
            ensure(f, K(-1), '%s: the first range is empty' % what)
        ensure(f, L - a, '%s: the first range starts after the first vector' % what)

    def nxt(f):
        m = start(f)
        L, H = lo(m), hi(m)
        i = Poly.atom(('lv', lid))
        R = count(m, m.ev, lid)
        f.add(i)
        f.add(R - K(2) - i)
        if not f.feasible():
            return
        a, n = rng(m, i)
        b, k = rng(m, i + ONE)
        if a is None:
            raise Unk('empty range')
        if b is None:
            ensure(f, a + n - H, '%s: the ranges end early' % what)
        else:
            ensure(f, a + n - b, '%s: vectors between two ranges are left out' % what)

    def last(f):
        m = start(f)
        L, H = lo(m), hi(m)
        R = count(m, m.ev, lid)
        f.add(R - ONE)
        if not f.feasible():
            return
        a, n = rng(m, R - ONE)
        if a is not None:
            ensure(f, a + n - H, '%s: the last range ends before the last vector' % what)
        else:
            raise Unk('empty range')
    for fn in (none, nxt, last):
        if every_case(chk, 'every entry', construct, loc, [], empty_ok(fn)) is False:
            return False
    return ''


def p08_world(chk, w):
    meth = 'compute_symm_inner_product_array'
    r = analyse(w, meth)
    res = r.deep(r.result)
    N = Poly.atom('vectors')
    lists = {'vec_handles': N}
    construct = 'vectorspace.VectorSpaceHandles.' + meth
    st = array_stores(r)
    allocs = {b for _, b in st}
    if len(allocs) != 1:
        raise Undecided('%d arrays' % len(allocs))
    (alloc,) = allocs
    fresh = untouched(r, alloc)
    if not fresh and w != 'mpiN':
        raise Undecided('array created by %s' % alloc.args[0].args[0])
    nests = []
    for e, _ in st:
        if e.d.get('op', '=') != '=':
            raise Undecided('update in place')
        n = Nest(r, e, lists)
        if n.idx.op != 'tuple' or len(n.idx.args[0]) != 2:
            raise Undecided('index %s' % show(n.idx, 3))
        n.loc = e.loc
        n.ri, n.ci = n.idx.args[0]
        nests.append(n)
    TRs = set()
    for n in nests:
        TRs |= prims_in(n.ri)
    if len(TRs) != 1:
        raise Undecided('rows are taken from %d divisions of work' % len(TRs))
    (TR,) = TRs
    trt = dict(TR.args[1])['tasks']
    c_l = [l for l in nests[0].loops if any(x.op == 'lv' and x.args[0] == l for x in walk(trt))]
    if len(c_l) != 1 or any(n.loops[0] != c_l[0] for n in nests):
        raise Undecided('loop over the sets of rows')
    cl = c_l[0]
    live = []
    for n in nests:
        n.uses = {'row': set(), 'col': set()}
        n.seen = False

        def label(f, n=n):
            m = n.model(f)
            try:
                enter(m, n.loops)
            except Empty:
                return
            g = guard_false(m, n.pc)
            if g is not None:
                if f.model() is not None:
                    raise Bad('an entry is not computed when %s fails' % show(g, 4), f.model())
                if f.feasible():
                    raise Unk('guard %s' % show(g, 4))
                return
            n.seen = True
            rho, kap = m.ev.num(n.ri), m.ev.num(n.ci)
            v = m.ev(n.val)
            if not isinstance(v, Opq) or v.key[0] != 'ip':
                raise Unk('stored value %r' % (v,))
            (la, ia), (lb, ib) = the_vec(v.key[1]), the_vec(v.key[2])
            ensure_eq(f, ia, rho, 'first vector and row index of the entry differ')
            ensure_eq(f, ib, kap, 'second vector and column index of the entry differ')
            nn, g = m.ev.seq(m.ev(trt))
            c0 = g(ZERO)
            if w == 'mpiN':
                S, E = Poly.atom(('S', repr(nn), PR)), Poly.atom(('E', repr(nn), PR))
                ensure(f, rho - S - c0, 'a process computes rows of another process')
                ensure(f, E - ONE - rho + c0, 'a process computes rows of another process')
            for nm, p in (('row', rho), ('col', kap)):
                n.uses[nm] |= {a[1] for a in p.atoms() if isinstance(a, tuple) and a[0] == 'lv'}
        if every_case(chk, 'entry pairs its row and column vector', construct, n.loc, [], empty_ok(label)) is False:
            return False
        if n.seen:
            live.append(n)
    # sets of rows
    if window(chk, r, 'sets of rows', live[0].loc if live else nests[0].loc, lists, cl, trt, [], lambda m: ZERO, lambda m: N, construct) is False:
        return False
    T, X, R = [], [], []
    for n in live:
        ex = [x for x in pass_loop(r, n.loops)] if w == 'mpiN' else []
        if len({x[0] for x in ex}) > 1:
            raise Undecided('several exchanges around an entry')
        n.xl = ex[0][0] if ex else None
        ps = prims_in(n.ci)
        if ex:
            m = n.model(Facts())
            n.ex = m.exchange(callt_of(r, ex[0][1]))
            n.recv = ex[0][1]
            for t in n.ex['payload']:
                if t.op == 'mu' and t.args[0] == n.xl:
                    ps |= prims_in(r.deep(r.an.loops[n.xl].init.get(t.args[1], NONE)))
                ps |= prims_in(t)
        n.own = ps - {TR}
        if not n.own:
            (X if ex else T).append(n)
        elif len(n.own) == 1:
            R.append(n)
        else:
            raise Undecided('columns taken from several divisions of work')
    KR = Poly.atom(('lv', 'row'))
    cfix = {cl: Poly.atom(('lv', cl))}

    def rowlids(n):
        k = [l for l in n.loops if l in n.uses['row'] and l != cl]
        if len(k) != 1:
            raise Undecided('rows of an entry')
        return k
    for n in live:
        k = rowlids(n)
        # rows of the whole share, wherever the store stands
        if covered(chk, 'rows of a process', n, n.loc, k, n.ri, N, PR, row_env(n, k, cl), None, 'every entry', tasks=trt) is False:
            return False
    # pairs within one process
    if not T:
        chk.violate('every entry', construct, nests[0].loc, 'the vectors of one process are not paired with each other')
        return False

    def tri(f):
        m = T[0].model(f)
        m.ev = m.sub(m.ev, cfix)
        for l, v in cfix.items():
            f.add(v)
            f.add(m.ev.num(m.loops[l].count) - ONE - v)
        nn, g = m.ev.seq(m.ev(trt))
        c0 = g(ZERO)
        S, E = (ZERO, nn) if w != 'mpiN' else (Poly.atom(('S', repr(nn), PR)), Poly.atom(('E', repr(nn), PR)))
        S, E = S + c0, E + c0
        f.add(KR)
        f.add(E - ONE - S - KR)
        m.ev(TR)
        ivs = []
        rho = None
        for n in T:
            k = rowlids(n)[0]
            ev = m.sub(m.ev, {k: KR})
            m.pc, m.nest = n.pc, n.loops
            f.add(m.sub(m.ev, {}).num(m.loops[k].count) - ONE - KR)
            rr = ev.num(n.ri)
            if rho is not None:
                ensure_eq(f, rr, rho, 'rows of the entries of one process')
            rho = rr
            inner = [l for l in n.loops if l not in (cl, k)]
            if not inner:
                x = ev.num(n.ci)
                ivs.append((x, x + ONE))
            elif len(inner) == 1:
                c = count(m, ev, inner[0])
                if c == ZERO:
                    continue
                x = m.sub(ev, {inner[0]: ZERO}).num(n.ci)
                y = m.sub(ev, {inner[0]: Poly.atom(('lv', inner[0]))}).num(n.ci)
                if y - x != Poly.atom(('lv', inner[0])):
                    raise Unk('columns of one process')
                ivs.append((x, x + c))
            else:
                raise Unk('loops within one process')
        up, down = (rho, E), (S, rho + ONE)
        tried = []
        for a, b in (up, down):
            x, left = a, list(ivs)
            while left:
                nx = [i for i in left if f.ge(x - i[0])]
                if not nx:
                    break
                i = nx[0]
                left.remove(i)
                x = i[1] if f.ge(i[1] - x) else x
            if f.ge(b - x) and f.ge(x - b):
                return
            tried.append(b - ONE - x)
            if f.ge(x - b):
                return
        mm = f.model([tried[0]])
        if mm is not None:
            raise Bad('pairs of vectors of one process are left out', mm)
        raise Unk('pairs of one process')
    if every_case(chk, 'every entry', construct, T[0].loc, [], empty_ok(tri)) is False:
        return False
    # pairs of different processes of a set
    if w == 'mpiN':
        if len(X) > 1:
            raise Undecided('several exchanges within a set')
        if not X:
            chk.violate('every entry', construct, nests[0].loc, 'the vectors of different processes of a set are not paired')
            return False
        if sets(chk, r, X[0], lists, cl, trt, construct, N, rowlids(X[0])) is False:
            return False
    # pairs with later sets
    if len(R) != 1:
        if not R:
            chk.violate('every entry', construct, nests[0].loc, 'vectors of different sets are not paired')
            return False
        raise Undecided('several rectangular parts')
    n = R[0]
    (TC,) = n.own
    tct = dict(TC.args[1])['tasks']
    wl = [l for l in n.loops if l != cl and any(x.op == 'lv' and x.args[0] == l for x in walk(tct))]
    if len(wl) != 1:
        raise Undecided('loop over the later columns')

    def after(m):
        nn, g = m.ev.seq(m.ev(trt))
        return g(ZERO) + nn
    if window(chk, r, 'columns right of a set', n.loc, lists, wl[0], tct, [cl], after, lambda m: N, construct) is False:
        return False
    il = [l for l in n.loops if l in n.uses['col'] and l not in (cl, wl[0], n.xl)]
    if n.xl is not None and passes(chk, r, lists, n.xl, n.recv, construct, n.loc) is False:
        return False
    base = {cl: Poly.atom(('lv', cl)), wl[0]: Poly.atom(('lv', wl[0]))}
    vs = [(PR, {})]
    if n.xl is not None:
        vs = [(PR, {n.xl: ZERO}), (SRC, {n.xl: Poly.atom(('lv', n.xl))})]
    for owner, fx in vs:
        def ex2(m, fx=fx):
            for v in fx.values():
                if not v.isconst():
                    m.facts.add(v - ONE)
                    m.facts.add(m.P - ONE - v)
        if covered(chk, 'columns right of a set%s' % (' (received)' if owner is SRC else ''), n, n.loc, il, n.ci, N, owner, dict(base, **fx), ex2, 'every entry', tasks=tct) is False:
            return False
    # completion to the Hermitian array
    return finish(chk, r, res, alloc, w, construct, nests[0].loc)


def row_env(n, k, cl):
    """Generic iterations of the loops around the row loop."""
    out = {}
    for l in n.loops:
        if l in k:
            break
        out[l] = Poly.atom(('lv', l))
    return out


def sets(chk, r, n, lists, cl, trt, construct, N, rl):
    """Every two active processes of a set meet in one of the exchanges."""
    from .p2p import Cong, shift
    _, args, kw = comm_op(n.ex['send'])
    dest = r.deep(kw.get('dest', args[1] if len(args) > 1 else None))
    bases = mod_base(dest)
    if len(bases) != 1:
        raise Undecided('partners')
    (b,) = bases
    if any(t.op == 'mu' and t.args[0] == n.xl for t in n.ex['payload']):
        raise Undecided('vectors passed on within a set')
    # distance to the partner as a function of the loop over the exchanges
    sl = [l for l in n.loops if l != cl and any(x.op == 'lv' and x.args[0] == l for x in walk(dest))]
    if len(sl) != 1:
        raise Undecided('loop over the partners')
    sl = sl[0]
    lv = Poly.atom(('lv', sl))

    def dist(f):
        m = n.model(f)
        m.ev = m.sub(m.ev, {cl: Poly.atom(('lv', cl))})
        f.add(Poly.atom(('lv', cl)))
        f.add(m.ev.num(m.loops[cl].count) - ONE - Poly.atom(('lv', cl)))
        A = m.ev(b)
        if A not in m.nact:
            raise Unk('number of partners %r' % (A,))
        f.add(A - K(2))
        f.add(A - ONE - PR)
        if not f.feasible():
            return
        c = count(m, m.ev, sl)
        inner = [x for x in walk(dest) if x.op == 'bin' and x.args[0] == '%']
        if len(inner) != 1 or inner[0] is not dest:
            raise Unk('partner %s' % show(dest, 4))
        d0 = m.sub(m.ev, {sl: lv}).num(dest.args[1]) - PR
        if PR.atoms() & d0.atoms():
            raise Unk('partner %s' % show(dest, 4))
        sign = 1
        lin = d0 - lv
        if (d0 - lv).isconst():
            first = (d0 - lv)
        elif (d0 + lv).isconst():
            first = (d0 + lv).scale(-1)
        else:
            raise Unk('distance %r' % d0)
        if c == ZERO:
            ensure(f, K(-1), 'processes of a set do not exchange vectors')
        ensure(f, ONE - first, 'the next process is never a partner')
        # distances first .. first+c-1 must reach half way round
        ensure(f, (first + c - ONE).scale(2) - A + ONE, 'partners half way round are left out')
    if every_case(chk, 'every entry', construct, n.loc, [], empty_ok(dist)) is False:
        return False
    env = {cl: Poly.atom(('lv', cl)), sl: lv}
    il = [l for l in n.loops if l in n.uses['col'] and l not in (cl, sl)]
    def ex2(m):
        m.ev(b)
    return covered(chk, 'vectors received from a partner', n, n.loc, il, n.ci, N, SRC, env, ex2, 'every entry', tasks=trt)


def lcd(p):
    """The least common denominator of the coefficients."""
    n = 1
    for v in p.d.values():
        d = v.denominator if hasattr(v, 'denominator') else 1
        g, h = n, d
        while h:
            g, h = h, g % h
        n = n * d // g
    return n


class Elt(object):
    """Evaluation of an array expression at positions (i, j) and (j, i) with i < j (or i = j)."""

    def __init__(self, r, base, vals, diag, kind=None):
        self.r, self.base, self.vals, self.diag = r, base, vals, diag
        self.kind = kind
        self.memo = {}
        self.nred = set()

    def __call__(self, t, up):
        k = (t, up)
        if k not in self.memo:
            self.memo[k] = self.ev(t, up)
        return self.memo[k]

    def ev(self, t, up):
        if self.base(t):
            return self.vals[up]
        if t.op == 'const':
            v = t.args[0]
            if isinstance(v, (int, float)) and not isinstance(v, bool) and v == int(v):
                return K(int(v))
        if t.op == 'attr' and t.args[1] == 'T':
            return self(t.args[0], up if self.diag else not up)
        if t.op == 'mcall' and t.args[1] in ('conj', 'conjugate') and not t.args[2]:
            return cj(self(t.args[0], up))
        if t.op == 'mcall' and t.args[1] == 'transpose' and not t.args[2]:
            return self(t.args[0], up if self.diag else not up)
        if t.op == 'mcall' and t.args[1] == 'copy':
            return self(t.args[0], up)
        if t.op == 'not':
            v = self(t.args[0], up)
            if isinstance(v, bool):
                return not v
        for nm, xs in parts_of(t):
            v = self(xs, up)
            if isinstance(v, bool):
                raise Unk('part of a condition')
            if not v.d:
                return ZERO
            if set(v.d) <= {('h',), ('hc',), ('d',)} and len(v.d) == 1:
                if nm == 'imag' and ('d',) in v.d or self.kind == {'real': 'imaginary', 'imag': 'real'}.get(nm):
                    return ZERO
                return Poly.atom((nm, 'tiny' if self.kind == 'tiny' else ''))
            raise Unk('part of %r' % v)
        if t.op == 'cmp' and t.args[0] == '<':
            for i in (1, 2):
                x, y = t.args[i], t.args[3 - i]
                if y.op == 'const' and isinstance(y.args[0], (int, float)) and any(True for _ in parts_of(x)):
                    v = self(x, up)
                    if list(v.d) == [(('abs', 'tiny'),)] or not v.d:
                        small = not v.d and y.args[0] > 0 or bool(v.d) and y.args[0] > 0
                    elif list(v.d) == [(('abs', ''),)]:
                        small = False
                    else:
                        break
                    return small if i == 1 else not small and (bool(v.d) or y.args[0] < 0)
        if t.op == 'cmp' and t.args[0] == '==':
            a, b = self(t.args[1], up), self(t.args[2], up)
            if isinstance(a, Poly) and isinstance(b, Poly):
                d = a - b
                if not d.d:
                    return True
                if len(d.d) == 1:
                    return False        # h is not zero
        if t.op in ('bin', 'call'):
            if t.op == 'bin':
                o, x, y = t.args
            else:
                if t.args[0].op != 'ext':
                    raise Unk('call in the completion')
                nm = t.args[0].args[0]
                a = t.args[1]
                kw = dict(t.args[2])
                if nm in ('numpy.triu', 'numpy.tril') and 1 <= len(a) <= 2:
                    k = a[1] if len(a) == 2 else kw.get('k', const(0))
                    if k.op != 'const' or not isinstance(k.args[0], int) or abs(k.args[0]) > 1:
                        raise Unk('diagonal offset')
                    k = k.args[0]
                    # column minus row
                    if self.diag:
                        keep = (0 >= k) if nm.endswith('triu') else (0 <= k)
                    elif up:
                        if nm.endswith('triu'):
                            keep = True if k <= 1 else None
                        else:
                            keep = None if k >= 1 else False
                    else:
                        if nm.endswith('triu'):
                            keep = None if k <= -1 else False
                        else:
                            keep = True
                    if keep is None:
                        raise Unk('diagonal offset')
                    v = self(a[0], up)
                    if isinstance(v, bool):
                        raise Unk('triangle of conditions')
                    return v if keep else ZERO
                if nm in ('numpy.conj', 'numpy.conjugate') and len(a) == 1:
                    return cj(self(a[0], up))
                if nm == 'numpy.transpose' and len(a) == 1:
                    return self(a[0], up if self.diag else not up)
                if nm in ('numpy.array', 'numpy.asarray', 'numpy.copy') and len(a) == 1:
                    return self(a[0], up)
                if nm == 'numpy.diag' and len(a) == 1 and a[0].op == 'call' and a[0].args[0] is t.args[0]:
                    return self(a[0].args[1][0], up) if self.diag else ZERO
                if nm == 'numpy.where' and len(a) == 3:
                    c = self(a[0], up)
                    if isinstance(c, bool):
                        return self(a[1] if c else a[2], up)
                if nm == 'numpy.logical_not' and len(a) == 1:
                    c = self(a[0], up)
                    if isinstance(c, bool):
                        return not c
                o = {'numpy.multiply': '*', 'numpy.add': '+', 'numpy.subtract': '-', 'numpy.logical_and': '&', 'numpy.logical_or': '|',
                     'numpy.equal': '==', 'numpy.not_equal': '!='}.get(nm)
                if o is None or len(a) != 2:
                    raise Unk('call of %s' % nm)
                x, y = a
            u, v = self(x, up), self(y, up)
            if o in ('==', '!='):
                q = self.ev(mk('cmp', '==', x, y), up)
                return q if o == '==' else not q
            if o in '&|' and isinstance(u, bool) and isinstance(v, bool):
                return (u and v) if o == '&' else (u or v)
            if o == '*' and isinstance(u, bool) and isinstance(v, bool):
                return u and v
            if isinstance(u, bool):
                u = K(int(u))
            if isinstance(v, bool):
                v = K(int(v))
            if o == '+':
                return u + v
            if o == '-':
                return u - v
            if o == '*':
                return u * v
        raise Unk('completion by %s' % show(t, 3))


def parts_of(t):
    """(part, value) when t is the real or imaginary part or the size of a value."""
    if t.op == 'attr' and t.args[1] in ('real', 'imag'):
        yield t.args[1], t.args[0]
    elif t.op == 'call' and t.args[0].op == 'ext' and len(t.args[1]) == 1 and t.args[0].args[0] in ('numpy.real', 'numpy.imag', 'numpy.abs', 'numpy.absolute', 'builtins.abs'):
        yield {'absolute': 'abs'}.get(t.args[0].args[0].split('.')[-1], t.args[0].args[0].split('.')[-1]), t.args[1][0]


def cj(v):
    if isinstance(v, bool):
        return v
    m = {'h': 'hc', 'hc': 'h', 'd': 'd'}
    return Poly({tuple(sorted(m[a] for a in k)): c for k, c in v.d.items()})


def finish(chk, r, res, alloc, w, construct, loc):
    """The computed entries are completed to the Hermitian array."""
    h, hc, d = Poly.atom('h'), Poly.atom('hc'), Poly.atom('d')
    reds = [t for t in walk(res) if t.op == 'mcall' and t.args[1] == 'allreduce']
    if w == 'mpiN':
        ok = [t for t in reds if len(t.args[2]) == 1 and root(r, t.args[2][0]) is alloc]
        if not reds:
            chk.violate('complete', construct, loc, 'each process returns only the entries it computed itself')
            return False
        if len(set(reds)) != 1 or len(ok) != len(reds):
            raise Undecided('sum over the processes')
        if alloc.args[0].args[0] == 'numpy.empty':
            chk.violate('complete', construct, loc, 'the arrays that are summed over the processes are not zero where a process computes nothing')
            return False
        base = lambda t: t is ok[0]
    else:
        base = lambda t: t.op in ('loopout', 'store') and root(r, t) is alloc
    cases = [('entry computed above the diagonal', {True: h, False: ZERO}), ('entry computed below the diagonal', {True: ZERO, False: hc}),
             ('entry computed twice', {True: h, False: hc}), ('zero inner product', {True: ZERO, False: ZERO})]
    if any(True for t in walk(res) for _ in parts_of(t)):
        # parts and sizes of entries decide: numbers without a real part, without an imaginary part, and very small ones
        cases = [(a + ('' if k is None else ' (%s)' % {'tiny': 'of tiny size'}.get(k, k)), b, k) for a, b in cases for k in (None, 'imaginary', 'real', 'tiny')]
    else:
        cases = [(a, b, None) for a, b in cases]
    try:
        for name, vals, kind in cases:
            want = {True: h, False: hc} if name[0] == 'e' else {True: ZERO, False: ZERO}
            E = Elt(r, base, vals, False, kind)
            for up in (True, False):
                g = E(res, up)
                if isinstance(g, bool):
                    raise Unk('conditions returned')
                if g != want[up]:
                    chk.violate('complete', construct, loc, '%s: the entry %s the diagonal becomes %s instead of %s' % (
                        name, 'above' if up else 'below', pretty(g), pretty(want[up])))
                    return False
        for v in (d, ZERO):
            g = Elt(r, base, {True: v, False: v}, True)(res, True)
            if g != v:
                chk.violate('complete', construct, loc, 'a diagonal entry becomes %s instead of %s' % (pretty(g), pretty(v)))
                return False
    except Unk as e:
        raise Undecided('completion: %s' % e)
    return 'entries above, below, on the diagonal; computed once or twice'


def pretty(p):
    return repr(p).replace('hc', 'conj(<x,y>)').replace('h', '<x,y>') if p.d else '0'


@prop('P08', 'index algebra over symbolic sets of rows, shares, exchanges and passes: pairing and gap-free coverage of all pairs; entrywise evaluation of the completion',
      'find_assignments divides 0..n-1 in contiguous shares, empty ones last (P06); messages arrive as sent (P02)')
def p08(chk):
    for w in ('nompi', 'mpi1', 'mpiN'):
        chk.ob('compute_symm_inner_product_array [%s]' % w, p08_world, chk, w)
