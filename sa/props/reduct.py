"""P12: the custom reductions, by induction over the doubling mask.

With mask = m a power of two, a rank is 2hm + bm + l (b in {0,1}, 0 <= l < m); partner expressions built from
&, |, ^, ~ and % become polynomials in h, m, l for each b, so that the messages of one round and the new
partial results are decided for all ranks and sizes at once."""
from ..par import *
from ..report import prop
from ..poly import Poly, poly, NotPoly
from ..lin import Facts
from ..numrun import floc
from .. import arr
from ..arr import Lst, Inp, elem
from ..elemcheck import compare_arr, ivar, rng

H, M, L_, SZ, ROOT = (Poly.atom(x) for x in ('h', 'm', 'l', 'size', 'root'))
ONE, ZERO, TWO = Poly.const(1), Poly(), Poly.const(2)


class Start(Exception):
    """The doubling mask does not start at one, so that rounds are missing."""


class Mixed(Exception):
    """A condition with both outcomes among ranks that should behave alike."""

    def __init__(self, c, size):
        Exception.__init__(self, show(c, 5))
        self.size = size


def witness(F, p):
    """Both outcomes of p >= 0 among small values that satisfy the facts F."""
    seen = set()
    names = ('h', 'm', 'l', 'size')
    if not all(a in names for q in F.f + [p] for a in q.atoms()):
        return False

    def val(q, env):
        t = 0
        for k, v in q.d.items():
            x = v
            for a in k:
                x = x * env[a]
            t += x
        return t
    for m in (1, 2, 4):
        for h in range(3):
            for l in range(m):
                for size in range(1, 18):
                    env = {'h': h, 'm': m, 'l': l, 'size': size}
                    if all(val(q, env) >= 0 for q in F.f):
                        seen.add(val(p, env) >= 0)
                        if len(seen) == 2:
                            return True
    return False


def eqmixed(F, z):
    """z is zero for some and not for others."""
    G = F.copy()
    ne1, ne2 = F.copy(), F.copy()
    ne1.add(z - ONE)
    ne2.add(z.scale(-1) - ONE)
    G.add_eq(z)
    one = Poly.const(0)
    return nonvoid(G) and (nonvoid(ne1) or nonvoid(ne2))


def nonvoid(F):
    names = ('h', 'm', 'l', 'size')
    if not all(a in names for q in F.f for a in q.atoms()):
        return False
    for m in (1, 2, 4):
        for h in range(3):
            for l in range(m):
                for size in range(1, 18):
                    env = {'h': h, 'm': m, 'l': l, 'size': size}
                    ok = True
                    for q in F.f:
                        t = 0
                        for k, v in q.d.items():
                            x = v
                            for a in k:
                                x = x * env[a]
                            t += x
                        if t < 0:
                            ok = False
                            break
                    if ok:
                        return True
    return False


class Case(object):
    """Evaluate terms for one kind of rank."""

    def __init__(self, r, rank, facts, masks=(), selfs=(), val=None):
        self.r, self.rank, self.F, self.masks, self.selfs = r, rank, facts, masks, selfs
        self.val = val or {}

    def leaf(self, t):
        if t in self.val:
            return self.val[t]
        if t.op == 'attr' and t.args[1] in ('rank', 'size') and t.args[0] in self.selfs:
            return self.rank if t.args[1] == 'rank' else SZ
        if t is RANK:
            return self.rank
        if t is NPROCS:
            return SZ
        if t.op in ('mcall', 'call') and t.args[0] in self.selfs and t.args[1] in ('Get_rank', 'Get_size'):
            return self.rank if t.args[1] == 'Get_rank' else SZ
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[0] in self.selfs and t.args[0].args[1] in ('Get_rank', 'Get_size'):
            return self.rank if t.args[0].args[1] == 'Get_rank' else SZ
        return None

    def __call__(self, t):
        def at(x):
            v = self.leaf(x)
            if v is not None:
                return v
            if x.op == 'bin' and x.args[0] in ('&', '|', '^', '%', '>>', '<<', '//'):
                return self.bits(x)
            if x.op == 'phi':
                d = self.cond(x.args[0])
                return self(x.args[1] if d else x.args[2])
            if x.op == 'const' or x.op in ('bin', 'un'):
                return None
            raise Undecided('value %s' % show(x, 4))
        try:
            return poly(t, at)
        except NotPoly as e:
            raise Undecided('value %s' % e)

    def split(self, p):
        """(h, b, l) parts of p = 2hm + bm + l."""
        hp, bp, lp = Poly(), Poly(), Poly()
        for k, v in p.d.items():
            if k.count('m') == 1 and 'h' in k:
                hp = hp + Poly({k: v})
            elif k == ('m',):
                bp = bp + Poly({k: v})
            elif k == ('l',):
                lp = lp + Poly({k: v})
            elif k == () and v == 0:
                pass
            else:
                raise Undecided('bits of %r' % p)
        b = bp.d.get(('m',), 0)
        if hp.d and hp != (H * M).scale(2) or b not in (0, 1) or (lp.d and lp != L_):
            raise Undecided('bits of %r' % p)
        return hp, b, lp

    def bits(self, t):
        o, x, y = t.args
        inv = False
        if o in ('&', '|', '^'):
            if x.op == 'un' and x.args[0] == '~':
                x, y = y, x
            if y.op == 'un' and y.args[0] == '~':
                inv, y = True, y.args[1]
            px, py = self(x), self(y)
            if py != M and px == M and not inv:
                px, py = py, px
            if py == M:
                hp, b, lp = self.split(px)
                if o == '&':
                    return px - M.scale(b) if inv else M.scale(b)
                if inv:
                    raise Undecided('bits %s' % show(t, 4))
                return px + M.scale(1 - b) if o == '|' else px + M.scale(1 - 2 * b)
            if py == M - ONE and o == '&':
                hp, b, lp = self.split(px)
                return px - lp if inv else lp
            if py == M.scale(2) - ONE and o == '&':
                hp, b, lp = self.split(px)
                return hp if inv else px - hp
            raise Undecided('bits %s' % show(t, 4))
        px, py = self(x), self(y)
        if o == '<<' and py.isconst():
            return px.scale(2 ** int(py.value()))
        if o == '%':
            if self.F.ge(px) and self.F.ge(py - px - ONE):
                return px
            if py == SZ and self.F.ge(px - SZ) and self.F.ge(SZ.scale(2) - px - ONE):
                return px - SZ
            if py == M:
                return self.split(px)[2]
            if py == M.scale(2):
                hp, b, lp = self.split(px)
                return px - hp
        if o == '%' and py == TWO:
            q = Poly({k: v for k, v in px.d.items() if (v / 2).denominator != 1})
            if q.isconst() and q.value() in (0, 1):
                return q
        if o == '//' and py == M:
            hp, b, lp = self.split(px)
            return (H.scale(2) if hp.d else ZERO) + Poly.const(b)
        if o == '//' and py == M.scale(2):
            hp, b, lp = self.split(px)
            return H if hp.d else ZERO
        raise Undecided('value %s' % show(t, 4))

    def cond(self, c):
        if c in self.val:
            return self.val[c]
        if c.op == 'const':
            return bool(c.args[0])
        if c.op == 'not':
            return not self.cond(c.args[0])
        if c.op == 'bool':
            vs = [self.cond(x) for x in c.args[1]]
            return all(vs) if c.args[0] == 'and' else any(vs)
        if c.op == 'cmp' and c.args[0] in ('<', '=='):
            x, y = self(c.args[1]), self(c.args[2])
            if c.args[0] == '<':
                d = self.F.decide(y - x - ONE)
            else:
                d = self.F.eq(x, y)
            if d is not None:
                return d
            z = y - x
            if c.args[0] == '<':
                mixed = witness(self.F, z - ONE)
            else:
                mixed = (witness(self.F, z) or witness(self.F, z.scale(-1)) or witness(self.F, z - ONE)) and eqmixed(self.F, z)
            if mixed:
                raise Mixed(c, 'size' in z.atoms())
        elif c.op in ('bin',):
            d = self.F.eq(self(c), ZERO)
            if d is not None:
                return not d
            if eqmixed(self.F, self(c)):
                raise Mixed(c, 'size' in self(c).atoms())
        raise Undecided('condition %s' % show(c, 5))

    def holds(self, pc):
        for c, p in pc:
            if c.op == 'const':
                if bool(c.args[0]) != p:
                    return False
                continue
            if self.cond(c) != p:
                return False
        return True

    def value(self, t):
        """Resolve the choices in a term."""
        while t.op == 'phi':
            t = t.args[1] if self.cond(t.args[0]) else t.args[2]
        return t


def msg(e):
    """(operation, args, kw) of a message on the object itself."""
    if e.kind == 'call' and e.d['func'].op == 'attr':
        return e.d['func'].args[1], e.d['func'].args[0], e.d['args'], dict(e.d['kw'])
    if e.kind == 'mcall':
        return e.d['name'], e.d['recv'], e.d['args'], dict(e.d['kw'])
    return None


@prop('P12', 'induction over the rounds of the reduction tree: bit-level partner algebra, case analysis on the rank, for all ranks, sizes and roots',
      'reduce, allreduce, scan and exscan of the custom communicator.')
def p12(c):
    c.rule('rounds', 'in the round with mask m each process whose bit m is clear combines, in rank order, the contribution of the process with that bit set, which sends exactly that')
    c.rule('root', 'the result reaches the root; the other processes obtain nothing')
    c.rule('all', 'an all-reduction broadcasts the reduction from its root')
    c.rule('sum', 'the operations provided for reductions add element by element, without changing their arguments')
    pkg = package('mpiN')
    cls = [v.args[0] for m in pkg.modules.values() for v in m.env.values() if v.op == 'class' and v.args[0].name == 'Intracomm' and v.args[0].module is m]
    if not cls:
        raise Undecided('no custom communicator')
    cl = cls[0]
    ms = methods(cl)
    for n, fn in (('reduce', reduce_), ('allreduce', allreduce), ('scan', scan), ('exscan', exscan)):
        f = ms.get(n)
        if f is None:
            if n in ('reduce', 'allreduce'):
                c.note('%s inherited from the MPI library' % n)
                c.ob(n, lambda: 'inherited')
            continue
        r = cached_run(pkg, f, cls=cl)
        if r is None:
            c.undecided(n, 'not analysed')
            continue
        c.ob(n, started, fn, c, cl, f, r, pkg)
    pk = package('nompi')
    for q, arrs in (('util.sum_lists', False), ('util.sum_arrays', True)):
        if pk.func(q) is not None:
            c.ob(q, sums, c, pk, q, arrs)


def started(fn, c, cl, f, r, pkg):
    try:
        return fn(c, cl, f, r, pkg)
    except Start as e:
        c.violate('rounds', f.qual, '%s:%d' % (f.module.path, f.node.lineno), str(e))
        return False


def loop_of(r, keys):
    """The doubling loop: (lid, Loop, mask key)."""
    ls = [(lid, L) for lid, L in r.an.loops.items() if L.back]
    out = []
    for lid, L in ls:
        for k, b in L.back.items():
            mu = mk('mu', lid, k)
            i0 = L.init.get(k)
            if i0 is not None and i0.op == 'const' and type(i0.args[0]) is int and b.op == 'bin' and (
                    (b.args[0] == '<<' and b.args[1] is mu and b.args[2] is const(1)) or
                    (b.args[0] == '*' and set(b.args[1:]) == {mu, const(2)}) or
                    (b.args[0] == '+' and b.args[1] is mu and b.args[2] is mu)):
                out.append((lid, L, k))
    if len(out) != 1:
        raise Undecided('no single loop with a doubling mask')
    L = out[0][1]
    start = L.init[out[0][2]].args[0]
    if start != 1:
        if start > 1 and L.cond is not None and intval(L.cond, mk('mu', out[0][0], out[0][2]), start, 2) in (False, 0):
            raise Start('the mask of the rounds starts at %s, so that two processes make no round at all' % start)
        raise Undecided('rounds starting from %s' % start)
    return out[0]


def selfs(r):
    o = getattr(r, 'self_obj', None)
    return {x for x in (o, sym('self')) if x is not None}


def base_facts(b):
    F = Facts([H, M - ONE, L_, M - L_ - ONE, SZ - M - ONE])
    rank = (H * M).scale(2) + M.scale(b) + L_
    F.add(SZ - rank - ONE)
    F.add(rank)
    F.add(H * M)
    return rank, F


def rounds(r, lid, L, k, S, l=None):
    """The kinds of rank in one round: (b, has partner, Case)."""
    out = []
    for b in (0, 1):
        for g in ((True, False) if b == 0 else (True,)):
            rank, F = base_facts(b)
            if l is not None:
                F.add(L_.scale(-1) if l == 0 else L_ - ONE)
            if b == 0:
                F.add(SZ - rank - M - ONE if g else rank + M - SZ)
            out.append((b, g, Case(r, rank, F, selfs=S, val={mk('mu', lid, k): M})))
    return out


def place(cs, t, b):
    """The partner as a polynomial; a term the algebra does not know is refuted by a small example."""
    try:
        return cs(t)
    except Undecided:
        for m in (1, 2, 4):
            for h in range(3):
                for l in range(m):
                    for size in range(2, 14):
                        env = {'h': h, 'm': m, 'l': l, 'size': size}
                        if not all(number(q, env) >= 0 for q in cs.F.f):
                            continue
                        v = concrete(cs, t, env)
                        if v is None:
                            raise
                        if v != number(partner(b, cs), env):
                            raise Wrong('%s (process %d of %d, mask %d)' % (v, number(cs.rank, env), size, m))
        raise


class Wrong(Exception):
    pass


def number(q, env):
    t = 0
    for k, v in q.d.items():
        x = v
        for a in k:
            if a not in env:
                raise Undecided('value of %r' % (a,))
            x = x * env[a]
        t += x
    return t


def concrete(cs, t, env):
    """The value of an integer term for given numbers."""
    v = cs.leaf(t)
    if v is not None:
        return int(number(v, env)) if isinstance(v, Poly) else None
    if t.op == 'const':
        return t.args[0] if isinstance(t.args[0], int) else None
    if t.op == 'bin':
        x, y = concrete(cs, t.args[1], env), concrete(cs, t.args[2], env)
        o = t.args[0]
        if x is None or y is None or o in ('//', '%') and y == 0 or o in ('<<', '>>') and y < 0:
            return None
        f = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '//': lambda: x // y, '%': lambda: x % y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
             '<<': lambda: x << y, '>>': lambda: x >> y}.get(o)
        return f() if f else None
    if t.op == 'un':
        x = concrete(cs, t.args[1], env)
        return None if x is None else {'-': -x, '~': ~x, '+': x}.get(t.args[0])
    return None


def partner(b, cs):
    return cs.rank - M if b else cs.rank + M


def in_loop(r, lid):
    return [e for e in r.events if lid in e.loops and msg(e) is not None and e.kind in ('call', 'mcall')]


def cap(f, *a):
    return f(*a)


def arg(x, i, *names):
    for n in names:
        if n in x[3]:
            return x[3][n]
    return x[2][i] if i is not None and len(x[2]) > i else None


def resolve(cs, t, known):
    """A combination of partial results: nested ('op', a, b) over names in known."""
    t = cs.value(t)
    if t in known:
        return known[t]
    if t.op == 'call' and t.args[0] is sym('op') and len(t.args[1]) == 2:
        return ('op', resolve(cs, t.args[1][0], known), resolve(cs, t.args[1][1], known))
    if t is NONE:
        return 'None'
    raise Undecided('combined value %s' % show(t, 4))


def condvals(cs, r):
    pass


def initial(c, q, L, key, r):
    v = L.init.get(key)
    v = r.deep(v)
    paired = v
    while paired.op == 'phi' and (paired.args[0].op == 'in' or paired.args[0].op == 'cmp' and paired.args[0].args[0] == 'in'):
        p = paired.args[1]
        if p.op == 'tuple' and len(p.args[0]) == 2 and p.args[0][0] is sym('sendobj'):
            x = p.args[0][1]
            own = x is RANK or x.op == 'attr' and x.args[1] == 'rank' and x.args[0] in selfs(r) or show(x, 4).endswith('Get_rank()')
            if not own and (x.op == 'const' or x.op == 'sym' or x.op == 'bin' and any(y.op == 'attr' and y.args[1] == 'rank' for y in walk(x)) or x.op == 'attr' and x.args[1] == 'size'):
                c.violate('rounds', q, '%s:0' % q, 'the location that goes with a contribution is %s, not the rank of its process' % show(x, 3))
                return False
        paired = paired.args[2]
    while v.op == 'phi' and (v.args[0].op == 'in' or v.args[0].op == 'cmp' and v.args[0].args[0] == 'in'):
        v = v.args[2]
    if v is sym('sendobj'):
        return True
    while v.op == 'phi':
        v = v.args[2]
    if v.op in ('const', 'tuple') or (v.op == 'sym' and v is not sym('sendobj')):
        c.violate('rounds', q, '%s:0' % q, 'the reduction does not start from the contribution of the process')
        return False
    raise Undecided('initial value %s' % show(v, 3))


def tags(ms):
    ts = {arg(m, 2, 'tag', 'sendtag') for m in ms if 'send' in m[0]} | {arg(m, 2, 'tag', 'recvtag') if 'sendrecv' not in m[0] else arg(m, 5, 'recvtag') for m in ms if 'recv' in m[0]}
    return ts


def loop_cond(c, q, r, lid, L, k):
    """The loop runs exactly while mask < size."""
    if L.cond is None:
        raise Undecided('condition of the loop')
    mu = mk('mu', lid, k)
    bad = None
    for j in range(5):
        for size in range(2 ** max(j - 1, 0) + 1 if j else 1, 20):
            v = intval(L.cond, mu, 2 ** j, size)
            if v is None:
                raise Undecided('condition of the loop %s' % show(L.cond, 4))
            if bool(v) < (2 ** j < size):
                c.violate('rounds', q, L.loc if hasattr(L, 'loc') else '%s:0' % q, 'the rounds stop before the mask reaches the size (mask %d, %d processes)' % (2 ** j, size))
                return False
            if bool(v) > (2 ** j < size):
                bad = True
    if bad:
        raise Undecided('more rounds than necessary')
    return True


def intval(t, mu, m, size):
    """Arithmetic of the mask and the size."""
    def rec(t):
        if t is mu:
            return m
        if t is NPROCS or (t.op == 'attr' and t.args[1] == 'size'):
            return size
        if t.op == 'const' and isinstance(t.args[0], (int, float)):
            return t.args[0]
        if t.op == 'not':
            v = rec(t.args[0])
            return None if v is None else not v
        if t.op in ('bin', 'cmp'):
            o, x, y = t.args
            x, y = rec(x), rec(y)
            if x is None or y is None:
                return None
            try:
                return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '//': lambda: x // y, '/': lambda: x / y, '<<': lambda: x << y,
                        '>>': lambda: x >> y, '%': lambda: x % y, '<': lambda: x < y, '==': lambda: x == y}[o]()
            except (KeyError, ZeroDivisionError, TypeError):
                return None
        return None
    return rec(t)


def leaves(cs, L):
    """The rank leaves the loop in this round."""
    for b in list(L.breaks) + list(L.returns):
        pc = b[0]
        if cs.holds([(q, p) for q, p in pc if not is_entry(q)]):
            return True
    return False


def pcs(r, e):
    """Conditions of an event without those established on entry."""
    return [(q, p) for q, p in e.pc if not is_entry(q)]


def is_entry(q):
    return q.op == 'bool' and any(x.op in ('sym', 'attr', 'const') for y in q.args[1] for x in walk(y)) and not any(x.op == 'mu' for x in walk(q))


def op_cond(q):
    return q.op == 'in'


def reduce_(c, cl, f, r, pkg):
    q = f.qual
    S = selfs(r)
    lid, L, k = loop_of(r, None)
    if not loop_cond(c, q, r, lid, L, k):
        return False
    # the accumulated value
    acc = None
    for key, b in L.back.items():
        if key != k and any(x.op == 'call' and x.args[0] is sym('op') for x in walk(b)):
            if acc is not None:
                raise Undecided('several accumulated values')
            acc = key
    if acc is None:
        c.violate('rounds', q, '%s:0' % q, 'received contributions are not combined')
        return False
    if not initial(c, q, L, acc, r):
        return False
    mu = mk('mu', lid, acc)
    evs = in_loop(r, lid)
    alltags = set()
    try:
        ok = tree(c, q, r, lid, L, k, S, acc, mu, evs, alltags, None)
    except Mixed as e:
        if e.size:
            c.violate('rounds', q, evs[0].loc if evs else '%s:0' % q, 'whether a process takes part in a round is not decided by whether its partner exists: %s' % e)
            return False
        try:
            ok = tree(c, q, r, lid, L, k, S, acc, mu, evs, alltags, 0)
            ok = tree(c, q, r, lid, L, k, S, acc, mu, evs, alltags, 1) and ok
        except Mixed as e:
            raise Undecided('condition %s' % e)
    if len(alltags) > 1:
        c.violate('rounds', q, '%s:0' % q, 'messages are sent and expected with different tags')
        ok = False
    if not ok:
        return False
    return root(c, q, r, lid, L, acc, S)


def tree(c, q, r, lid, L, k, S, acc, mu, evs, alltags, l):
    ok = True
    for b, g, cs in rounds(r, lid, L, k, S, l):
        got = [(e, msg(e)) for e in evs if cs.holds(pcs(r, e))]
        sends = [(e, m) for e, m in got if m[0].lower() in ('send', 'isend', 'ssend')]
        recvs = [(e, m) for e, m in got if m[0].lower() == 'recv']
        if any(m[0].lower() in P2P and m[0].lower() not in ('send', 'isend', 'ssend', 'recv') for e, m in got):
            raise Undecided('another kind of message')
        loc = (sends + recvs)[0][0].loc if sends + recvs else '%s:0' % q
        if l == 1 and not sends and not recvs:
            continue
        want_s, want_r = (1, 0) if b else (0, 1 if g else 0)
        who = 'a process whose bit of the mask is %s' % ('set' if b else 'clear') + ('' if b or g else ' and whose partner does not exist')
        if (len(sends), len(recvs)) != (want_s, want_r):
            c.violate('rounds', q, loc, '%s sends %d and receives %d messages in a round' % (who, len(sends), len(recvs)))
            ok = False
            continue
        for e, m in sends:
            try:
                d = place(cs, r.deep(arg(m, 1, 'dest') or ifail('no destination')), b)
                bad = None if d == partner(b, cs) else say(d)
            except Wrong as x:
                bad = str(x)
            if bad is not None:
                c.violate('rounds', q, e.loc, '%s sends to %s' % (who, bad))
                ok = False
            pl = r.deep(arg(m, 0, 'obj') or ifail('no payload'))
            if pl is not mu:
                if pl in (L.init.get(acc), sym('sendobj')):
                    c.violate('rounds', q, e.loc, 'a process passes on its own contribution instead of the combined one')
                    ok = False
                else:
                    raise Undecided('what is sent: %s' % show(pl, 3))
            alltags.add(r.deep(arg(m, 2, 'tag') or const(0)))
        known = {mu: 'own'}
        for e, m in recvs:
            try:
                d = place(cs, r.deep(arg(m, 1, 'source') or ifail('no source')), b)
                bad = None if d == partner(b, cs) else say(d)
            except Wrong as x:
                bad = str(x)
            if bad is not None:
                c.violate('rounds', q, e.loc, '%s receives from %s' % (who, bad))
                ok = False
            known[e.d['result']] = known[r.deep(e.d['result'])] = 'other'
            alltags.add(r.deep(arg(m, 2, 'tag') or const(0)))
        if ok and b == 0:
            v = resolve(cs, r.deep(L.back[acc]), known)
            want = ('op', 'own', 'other') if g else 'own'
            if v != want:
                c.violate('rounds', q, loc, '%s holds %s after the round' % (who, say(v)))
                ok = False
        if b == 0 and leaves(cs, L):
            c.violate('rounds', q, loc, '%s leaves the rounds early' % who)
            ok = False
    return ok


def say(v):
    if isinstance(v, tuple):
        return 'op(%s, %s)' % (say(v[1]), say(v[2]))
    if isinstance(v, Poly):
        return repr(v).replace('2*h*m', 'rank')
    return str(v)


def root(c, q, r, lid, L, acc, S):
    """After the rounds process 0 holds the reduction; it has to reach the root."""
    out = [x for x in walk(r.deep(r.result)) if x.op == 'loopout' and x.args[0] == lid and x.args[1] == acc]
    ok = True
    rt = sym('root')
    for name, rank, root_, facts in (('root 0, process 0', ZERO, ZERO, []),
                                     ('root 0, another process', Poly.atom('rank'), ZERO, [Poly.atom('rank') - ONE]),
                                     ('another root, process 0', ZERO, ROOT, [ROOT - ONE]),
                                     ('another root, the root', ROOT, ROOT, [ROOT - ONE]),
                                     ('another root, another process', Poly.atom('rank'), ROOT, [ROOT - ONE, Poly.atom('rank') - ONE])):
        subs = [facts]
        if rank == Poly.atom('rank') and root_ == ROOT:
            subs = [facts + [rank - root_ - ONE], facts + [root_ - rank - ONE]]
        for fs in subs:
            F = Facts(fs + [SZ - rank - ONE, SZ - root_ - ONE, rank, root_])
            cs = Case(r, rank, F, selfs=S, val={rt: root_})
            evs = [e for e in r.events if not e.loops and msg(e) is not None and msg(e)[0].lower() in P2P and cs.holds([x for x in e.pc if not is_entry(x[0])])]
            recvd = {}
            ns = nr = 0
            for e in evs:
                m = msg(e)
                if m[0].lower() in ('send', 'isend', 'ssend'):
                    ns += 1
                    d = cs(r.deep(arg(m, 1, 'dest')))
                    pl = cs.value(r.deep(arg(m, 0, 'obj')))
                    if F.eq(d, root_) is not True or pl.op != 'loopout' or pl.args[1] != acc:
                        c.violate('root', q, e.loc, 'process 0 does not pass the reduction to the root')
                        ok = False
                elif m[0].lower() == 'recv':
                    nr += 1
                    d = cs(r.deep(arg(m, 1, 'source')))
                    if F.eq(d, ZERO) is not True:
                        c.violate('root', q, e.loc, 'the root does not receive from process 0')
                        ok = False
                    recvd[e.d['result']] = recvd[r.deep(e.d['result'])] = True
                else:
                    raise Undecided('another kind of message')
            want = {'another root, process 0': (1, 0), 'another root, the root': (0, 1)}.get(name, (0, 0))
            if (ns, nr) != want:
                c.violate('root', q, evs[0].loc if evs else '%s:0' % q, '%s sends %d and receives %d messages after the rounds' % (name, ns, nr))
                ok = False
                continue
            v = cs.value(r.deep(r.result))
            isroot = name in ('root 0, process 0', 'another root, the root')
            if isroot:
                if name == 'another root, the root':
                    good = v in recvd
                else:
                    good = v.op == 'loopout' and v.args[1] == acc
                if not good:
                    if v is NONE or v.op in ('loopout', 'sym') or (v.op == 'call' and v.args[0] is sym('op')):
                        c.violate('root', q, '%s:0' % q, '%s does not obtain the reduction' % name)
                        ok = False
                    else:
                        raise Undecided('result %s' % show(v, 3))
            elif v is not NONE:
                if v.op in ('loopout', 'sym'):
                    c.violate('root', q, '%s:0' % q, '%s obtains a partial reduction' % name)
                    ok = False
                else:
                    raise Undecided('result %s' % show(v, 3))
    return '' if ok else False


def allreduce(c, cl, f, r, pkg):
    q = f.qual
    v = r.deep(r.result)
    ex = [e for e in r.events if e.kind == 'exit' and e.d['func'].name == 'reduce']
    en = [e for e in r.events if e.kind == 'enter' and e.d['func'].name == 'reduce']
    if len(ex) != 1 or len(en) != 1:
        raise Undecided('not built from one reduction')
    red = r.deep(ex[0].d['result'])
    a = en[0].d['args']
    root_ = r.deep(a.get('root', const(0)))
    bc = None
    for e in r.events:
        m = msg(e)
        if m is not None and m[0] == 'bcast' and m[1] in selfs(r):
            bc = (e, m)
    if bc is None:
        if v is red:
            c.violate('all', q, ex[0].loc, 'only the root obtains the result')
            return False
        raise Undecided('no broadcast')
    e, m = bc
    pl = r.deep(arg(m, 0, 'obj'))
    br = r.deep(arg(m, 1, 'root') or const(0))
    if br is not root_:
        c.violate('all', q, e.loc, 'the reduction to process %s is broadcast from process %s' % (show(root_, 2), show(br, 2)))
        return False
    if pl is not red:
        if pl is sym('sendobj'):
            c.violate('all', q, e.loc, 'the contribution of one process is broadcast instead of the reduction')
            return False
        raise Undecided('what is broadcast')
    if v is not e.d['result'] and v is not r.deep(e.d['result']):
        if v is red or v is sym('sendobj'):
            c.violate('all', q, e.loc, 'only the root obtains the result')
            return False
        raise Undecided('result %s' % show(v, 3))
    if r.deep(a.get('op', sym('op'))) is not sym('op'):
        c.violate('all', q, en[0].loc, 'the operation given is not used')
        return False
    if r.deep(a.get('sendobj', sym('sendobj'))) is not sym('sendobj'):
        raise Undecided('what is reduced')
    return ''


def scan(c, cl, f, r, pkg):
    return scan_(c, f, r, False)


def scan_(c, f, r, excl):
    try:
        return scanning(c, f, r, excl)
    except Mixed as e:
        if e.size:
            c.violate('rounds', f.qual, '%s:0' % f.qual, 'whether a process takes part in a round is not decided by whether its partner exists: %s' % e)
            return False
        raise Undecided('condition %s' % e)


def exscan(c, cl, f, r, pkg):
    return scan_(c, f, r, True)


def scanning(c, f, r, excl):
    q = f.qual
    S = selfs(r)
    lid, L, k = loop_of(r, None)
    if not loop_cond(c, q, r, lid, L, k):
        return False
    evs = in_loop(r, lid)
    sr = [(e, msg(e)) for e in evs if msg(e)[0].lower() in P2P]
    if len(sr) != 1 or sr[0][1][0] != 'sendrecv':
        raise Undecided('not one exchange per round')
    e0, m0 = sr[0]
    pl = r.deep(arg(m0, 0, 'sendobj'))
    if pl.op != 'mu':
        raise Undecided('what is exchanged')
    part = pl.args[1]
    res = r.deep(r.result)
    if excl:
        res = Case(r, Poly.atom('rank'), Facts([Poly.atom('rank') - ONE, SZ - Poly.atom('rank') - ONE]), selfs=S).value(res)
        z = Case(r, ZERO, Facts([SZ - ONE]), selfs=S).value(r.deep(r.result))
        if z is not NONE:
            if z.op in ('loopout', 'sym'):
                c.violate('root', q, '%s:0' % q, 'the first process obtains a value from an exclusive scan')
                return False
            raise Undecided('result of the first process')
    if res.op != 'loopout':
        raise Undecided('result %s' % show(res, 3))
    acc = res.args[1]
    if not initial(c, q, L, part, r):
        return False
    if not excl and not initial(c, q, L, acc, r):
        return False
    flags = [key for key in L.back if L.init.get(key) in (const(False), const(True)) and key not in (k, part, acc)]
    ok = True
    for b, g, cs in rounds(r, lid, L, k, S):
        for fl in ((False, True) if excl and b else (False,)):
            if b:
                # not the first process
                cs.F.add(cs.rank - ONE)
            for key in flags:
                # the flag tells whether something has been received from below
                iv = L.init[key].args[0]
                cs.val[mk('mu', lid, key)] = fl != iv
            who = 'a process whose bit of the mask is %s' % ('set' if b else 'clear') + ('' if b or g else ' and whose partner does not exist')
            takes = cs.holds(pcs(r, e0))
            if takes != (bool(b) or g):
                c.violate('rounds', q, e0.loc, '%s %s' % (who, 'takes part in the exchange' if takes else 'does not take part in the exchange'))
                return False
            if takes:
                d, s = cs(r.deep(arg(m0, 1, 'dest'))), cs(r.deep(arg(m0, 4, 'source')))
                if d != partner(b, cs) or s != partner(b, cs):
                    c.violate('rounds', q, e0.loc, '%s exchanges with %s and %s' % (who, say(d), say(s)))
                    return False
                if arg(m0, 2, 'sendtag') is not arg(m0, 5, 'recvtag'):
                    if r.deep(arg(m0, 2, 'sendtag') or const(0)) is not r.deep(arg(m0, 5, 'recvtag') or const(0)):
                        c.violate('rounds', q, e0.loc, 'messages are sent and expected with different tags')
                        return False
            known = {mk('mu', lid, part): 'block', mk('mu', lid, acc): 'result', e0.d['result']: 'other', r.deep(e0.d['result']): 'other'}
            vp = resolve(cs, r.deep(L.back[part]), known)
            va = resolve(cs, r.deep(L.back[acc]), known)
            wp = 'block' if not takes else (('op', 'other', 'block') if b else ('op', 'block', 'other'))
            if part == acc:
                raise Undecided('one value for both')
            wa = 'result' if not b else (('op', 'other', 'result') if not excl or fl else 'other')
            if vp != wp:
                c.violate('rounds', q, e0.loc, '%s holds the block %s after the round' % (who, say(vp)))
                return False
            if va != wa:
                c.violate('rounds', q, e0.loc, '%s holds the result %s after the round' % (who, say(va)))
                return False
            for key in flags:
                nv = cs.value(r.deep(L.back[key]))
                if nv.op == 'mu':
                    nv = const(cs.val[nv])
                want = (fl or bool(b)) != L.init[key].args[0]
                if nv is not const(want):
                    c.violate('rounds', q, e0.loc, '%s does not record that it has received a contribution' % who)
                    return False
    return ''


# ---------------------------------------------------------------- the operations provided for reductions
def sums(c, pkg, q, arrs):
    f = pkg.func(q)
    names = [a.arg for a in f.node.args.args]
    if len(names) != 2:
        raise Undecided('signature')
    r = Run(pkg)
    v = r.call(q, [sym(x) for x in names])
    v = r.deep(v) if r.st.alive else None
    i, j, n, m = ivar('i'), ivar('j'), Poly.atom('n'), Poly.atom('m')
    facts = [n] + rng(i, n) + ([m - ONE] + rng(j, m) if arrs else [])
    ins = {sym(x): (Inp(x, 2, dims=[n, m]) if arrs else Lst(n, (lambda x: lambda k: elem(x, [k]))(x))) for x in names}

    def ev(fx):
        return arr.Ev(ins, fx, loops=r.an.loops, hints=[i, j])
    for e in r.events:
        if e.kind not in ('raise', 'assert'):
            continue
        if e.kind == 'raise' and e.loops:
            raise Undecided('raises in a loop')
        fx = Facts(facts)
        x = arr.Ev(ins, fx, loops=r.an.loops)
        try:
            if e.kind == 'raise':
                bad = e.loops == () and all(x.cond(r.deep(k)) is pol for k, pol in e.pc)
            else:
                bad = all(x.cond(r.deep(k)) is pol for k, pol in e.pc) and x.cond(r.deep(e.d.get('cond', e.d.get('test')))) is False
        except (arr.Unk, arr.Split):
            raise Undecided('%s: a condition of a refusal is not understood' % (e.loc,))
        if bad:
            c.violate('sum', q, where(e), 'arguments of equal length are refused')
            return False
    if not r.st.alive:
        raise Undecided('always raises')

    def spec(e, ix):
        return elem(names[0], ix) + elem(names[1], ix)

    def term(e):
        x = e(v)
        if isinstance(x, arr.Lst):
            return arr.Arr([x.n], lambda ix: x.get(ix[0]))
        return x
    compare_arr(c, q + ' elements', q, floc(f), ev, term, [n, m] if arrs else [n], [i, j] if arrs else [i], spec, set(names), 'the sum', facts, rule='sum')
