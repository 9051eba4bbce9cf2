"""Element-wise semantics of array terms.

A value is a polynomial (number), an Arr (shape and element at symbolic indices), a Lst (length and item at a
symbolic index), a python tuple of values, or an Opq (an object without array structure).  Questions about
indices are decided by integer polynomial inequalities; an undecided one splits the case (see cells)."""
from fractions import Fraction
from .terms import *
from .terms import T
from .interp import mkindex
from .poly import Poly, floordiv
from .lin import Facts

K = Poly.const
ZERO, ONE = K(0), K(1)
import os
DEBUG = os.environ.get('ARRDEBUG')


class Unk(Exception):
    pass


class Fails(Unk):
    """The operation certainly fails in this case."""


def plain(p):
    """Made of extents of the input only."""
    return all(isinstance(z, str) or isinstance(z, tuple) and z[0] == 'dim' for z in p.atoms())


class Split(Exception):
    def __init__(self, p):
        Exception.__init__(self, repr(p))
        self.p = p


class Arr(object):
    def __init__(self, shape, get, tag=None):
        self.shape, self.get, self.tag = list(shape), get, tag
        self.origin = None  # the array this is the flattened form of

    @property
    def ndim(self):
        return len(self.shape)


class Lst(object):
    def __init__(self, n, get):
        self.n, self.get = n, get


class Opq(object):
    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __hash__(self):
        return hash(('opq', self.key))

    def __repr__(self):
        return 'Opq(%r)' % (self.key,)


class Slice(object):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Non(object):
    pass


NON = Non()
ELL = object()


def Inp(name, ndim, real=False, dims=None):
    """A symbolic input array."""
    shape = dims or [Poly.atom(('dim', name, k)) for k in range(ndim)]
    return Arr(shape, lambda i: Poly.atom(('el', name, 'R' if real else '', tuple(i))), tag=name)


def elem(name, idx, cj=''):
    return Poly.atom(('el', name, cj, tuple(idx)))


def conj_poly(p):
    out = Poly()
    for k, v in p.d.items():
        q = K(v)
        for a in k:
            q = q * Poly.atom(conj_atom(a))
        out = out + q
    return out


def conj_atom(a):
    if isinstance(a, tuple):
        if a[0] == 'el':
            if a[2] == 'R':
                return a
            return ('el', a[1], '' if a[2] == 'C' else 'C', a[3])
        if a[0] == 'sum':
            return ('sum', a[1], a[2], conj_poly(a[3]))
        if a[0] == 'recip':
            return ('recip', conj_atom(a[1]) if not isinstance(a[1], Poly) else conj_poly(a[1]))
        if a[0] == 'app':
            if a[1] in ('abs', 'count', 'floor', 'round', 'real', 'imag'):
                return a
            if a[1] == 'conj':
                return a[2][0]
            return ('app', 'conj', (a,))
        if a[0] in ('dim', '//', 'mod'):
            return a
    if isinstance(a, T) and a.op in ('lv',):
        return a
    return ('app', 'conj', (a,))


def recip(p):
    if p.isconst():
        if p.value() == 0:
            raise Unk('division by zero')
        return K(Fraction(1) / p.value())
    if len(p.d) == 1:
        (k, v), = p.d.items()
        r = K(Fraction(1) / v)
        for a in k:
            r = r * Poly.atom(a[1] if isinstance(a, tuple) and a[0] == 'recip' and not isinstance(a[1], Poly) else ('recip', a))
        return r
    return Poly.atom(('recip', p))


def mulp(a, b):
    """Product with x * 1/x cancelled."""
    r = a * b
    out = Poly()
    for k, v in r.d.items():
        l = list(k)
        ch = True
        while ch:
            ch = False
            for x in l:
                if isinstance(x, tuple) and x[0] == 'recip' and x[1] in l:
                    l.remove(x[1])
                    l.remove(x)
                    ch = True
                    break
        q = K(v)
        for x in l:
            q = q * Poly.atom(x)
        out = out + q
    return out


def subst_poly(p, m):
    """Substitute atoms inside indices too."""
    def at(a):
        if a in m:
            return m[a]
        if isinstance(a, tuple):
            if a[0] == 'el':
                return Poly.atom(('el', a[1], a[2], tuple(subst_poly(x, m) for x in a[3])))
            if a[0] == 'sum':
                return Poly.atom(('sum', a[1], subst_poly(a[2], m), subst_poly(a[3], m)))
            if a[0] == 'app':
                return Poly.atom(('app', a[1], tuple(subst_poly(x, m) if isinstance(x, Poly) else x for x in a[2])))
            if a[0] == 'recip' and isinstance(a[1], Poly):
                return recip(subst_poly(a[1], m))
            if a[0] == 'recip':
                return recip(at(a[1]))
        return Poly.atom(a)
    out = Poly()
    for k, v in p.d.items():
        q = K(v)
        for a in k:
            q = q * at(a)
        out = out + q
    return out


def atoms_deep(p, out=None):
    out = set() if out is None else out
    for k in p.d:
        for a in k:
            out.add(a)
            if isinstance(a, tuple):
                for x in a:
                    if isinstance(x, Poly):
                        atoms_deep(x, out)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, Poly):
                                atoms_deep(y, out)
    return out


def mksum(var, n, body):
    """sum of body over var in [0, n)."""
    if not body.d:
        return ZERO
    if not n.d:
        return ZERO
    if n == ONE:
        return subst_poly(body, {var: ZERO})
    # linear in constants w.r.t. var
    out = Poly()
    rest = Poly()
    for k, v in body.d.items():
        t = Poly({k: v})
        if var in atoms_deep(t):
            free = [a for a in k if var not in atoms_deep(Poly.atom(a))]
            dep = [a for a in k if var in atoms_deep(Poly.atom(a))]
            b = ONE
            for a in dep:
                b = b * Poly.atom(a)
            depth = _sumdepth(b)
            canon = ('bv', depth)
            cv = Poly.atom(canon)
            b = subst_poly(b, {var: cv})
            back = subst_poly(b, {canon: n - ONE - cv})   # the same sum, run backwards: one of the two is kept
            if _order(back) < _order(b):
                b = back
            q = K(v)
            for a in free:
                q = q * Poly.atom(a)
            out = out + q * Poly.atom(('sum', canon, n, b))
        else:
            rest = rest + t
    return out + rest * n


def _order(p):
    return sum(1 for a in atoms_deep(p) if isinstance(a, tuple)), len(p.d), repr(p.key())


def expanded(p, m, limit=4000):
    """p at concrete integer values m of its atoms: the sums written out, the indices numbers."""
    m = {a: K(v) for a, v in m.items()}
    left = [limit]

    def at(a, m):
        if a in m:
            return m[a]
        if isinstance(a, tuple):
            if a[0] == 'sum':
                n = go(a[2], m)
                if not n.isconst():
                    raise Unk('sum over %r terms' % (n,))
                out = Poly()
                for k in range(max(0, int(n.value()))):
                    left[0] -= 1
                    if left[0] < 0:
                        raise Unk('sum too long to write out')
                    mm = dict(m)
                    mm[a[1]] = K(k)
                    out = out + go(a[3], mm)
                return out
            if a[0] == 'el':
                return Poly.atom(('el', a[1], a[2], tuple(go(x, m) for x in a[3])))
            if a[0] == 'app':
                return Poly.atom(('app', a[1], tuple(go(x, m) if isinstance(x, Poly) else x for x in a[2])))
            if a[0] == 'recip':
                return recip(go(a[1], m) if isinstance(a[1], Poly) else at(a[1], m))
        return Poly.atom(a)

    def go(p, m):
        out = Poly()
        for k, v in p.d.items():
            q = K(v)
            for a in k:
                q = q * at(a, m)
            out = out + q
        return out
    return go(p, m)


def _sumdepth(p):
    d = 0
    for a in atoms_deep(p):
        if isinstance(a, tuple) and a[0] == 'bv':
            d = max(d, a[1] + 1)
    return d


_fresh = [0]


def fresh(tag='v'):
    _fresh[0] += 1
    return ('fresh', tag, _fresh[0])


class Ev(object):
    def __init__(self, inputs, facts, decide=None, loops=None, hints=(), hook=None):
        self.inputs = inputs
        self.facts = facts
        self.dec = decide or (lambda c: None)
        self.loops = loops or {}
        self.hints = list(hints)
        self.hook = hook
        self.env = {}
        self.mus = {}
        self.memo = {}
        self.defined = []

    # ---- decisions
    def ge(self, p):
        r = self.facts.decide(p)
        if r is None:
            raise Split(p)
        return r

    def lt(self, a, b):
        return self.ge(b - a - ONE)

    def eq(self, a, b):
        r = self.facts.eq(a, b)
        if r is None:
            if self.facts.ge(a - b):
                raise Split(a - b - ONE)
            if self.facts.ge(b - a):
                raise Split(b - a - ONE)
            raise Split(b - a)
        return r

    def clamp(self, p, n):
        """Slice bound p of a sequence of length n."""
        if p is None:
            return None
        if p.isconst() and p.value() < 0:
            p = p + n
            return p if self.ge(p) else ZERO
        if not self.ge(p):
            p = p + n
            return p if self.ge(p) else ZERO
        return p if self.ge(n - p) else n

    # ---- divmod of an index by a block size
    def divmod(self, e, d):
        if d.isconst() and d.value() == 1:
            return e, ZERO
        q = Poly()
        r = Poly()
        if len(d.d) == 1:
            (dk, dv), = d.d.items()
            for k, v in e.d.items():
                l = list(k)
                ok = True
                for a in dk:
                    if a in l:
                        l.remove(a)
                    else:
                        ok = False
                if ok and (v / dv).denominator == 1:
                    q = q + Poly({tuple(l): v / dv})
                elif dk == () and k == ():
                    fl = v // dv
                    q, r = q + K(fl), r + K(v - fl * dv)
                else:
                    r = r + Poly({k: v})
        else:
            # try multiples of d by atoms of e
            best = None
            rem = e
            for h in self.hints + [K(c) for c in (1,)]:
                for c in (1, -1):
                    t = rem - (h * d).scale(c)
                    if len(t.d) < len(rem.d):
                        rem, q = t, q + h.scale(c)
            r = rem
        for _ in range(3):
            if not self.ge(r):
                r, q = r + d, q - ONE
            elif self.ge(r - d):
                r, q = r - d, q + ONE
            else:
                return q, r
        raise Unk('division of %r by %r' % (e, d))

    # ---- evaluation
    def __call__(self, t):
        k = t
        if k in self.memo:
            return self.memo[k]
        v = self.ev(t)
        self.memo[k] = v
        return v

    def with_env(self, var, val):
        e = Ev(self.inputs, self.facts, self.dec, self.loops, self.hints, self.hook)
        e.env = dict(self.env)
        e.env[var] = val
        e.mus = dict(self.mus)
        return e

    def num(self, t):
        v = self(t)
        if isinstance(v, Arr) and not v.shape:
            v = v.get([])
        if not isinstance(v, Poly):
            raise Unk('not a number: %s' % show(t, 4))
        return v

    def arr(self, t):
        return self.asarr(self(t))

    def asarr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Poly):
            return Arr([], lambda i: v)
        if isinstance(v, tuple):
            if not v:
                raise Unk('empty sequence')
            items = [self.asarr(x) for x in v]
            sh = items[0].shape

            def get(i):
                for k in range(len(items) - 1):
                    if self.eq(i[0], K(k)):
                        return items[k].get(i[1:])
                return items[-1].get(i[1:])
            return Arr([K(len(items))] + list(sh), get)
        if isinstance(v, Lst):
            f = self.asarr(v.get(ZERO))
            self.uniform(v.n, v.get, f)
            return Arr([v.n] + list(f.shape), lambda i: self.asarr(v.get(i[0])).get(i[1:]))
        if isinstance(v, Opq):
            p = Poly.atom(('obj', v.key))
            return Arr([], lambda i: p)
        raise Unk('not an array: %r' % (v,))

    def uniform(self, n, g, f, axis=None):
        """Arrays joined into one have equal extents (when they are made of extents of the input)."""
        if not f.shape:
            return
        i = None
        if n is not None:
            i = n - ONE            # the last against the first
        try:
            a = self.asarr(g(i))
        except Split as e:
            if any(isinstance(x, tuple) and x[0] in ('fresh', 'bv') for x in e.p.atoms()):
                return
            raise
        except Unk:
            return
        if not isinstance(a, Arr) or len(a.shape) != len(f.shape):
            return
        for k, (x, y) in enumerate(zip(a.shape, f.shape)):
            if k != axis and plain(x - y) and not self.eq(x, y):
                raise Fails('arrays with %r and %r rows or columns cannot be joined' % (y, x))

    def differ(self, x, y, what):
        """Two extents that should be equal are not."""
        if plain(x - y):
            raise Fails(what + ' fails')
        raise Unk(what)

    def seq(self, v):
        """(length, getter) of a sequence value."""
        if isinstance(v, Lst):
            return v.n, v.get
        if isinstance(v, tuple):
            def get(i):
                for k in range(len(v) - 1):
                    if self.eq(i, K(k)):
                        return v[k]
                return v[-1]
            return K(len(v)), get
        if isinstance(v, Arr) and v.shape:
            return v.shape[0], lambda i: Arr(v.shape[1:], lambda j: v.get([i] + list(j)))
        raise Unk('not a sequence')

    def ev(self, t):
        if self.hook is not None:
            r = self.hook(self, t)
            if r is not None:
                return r
        if t in self.inputs:
            return self.inputs[t]
        o, a = t.op, t.args
        if o == 'const':
            v = a[0]
            if v is None:
                return NON
            if v is Ellipsis:
                return ELL
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                return Opq(t)
            return K(F(v))
        if o == 'lv':
            if t in self.env:
                return self.env[t]
            if a[0] in self.env:
                return self.env[a[0]]
            return Poly.atom(t)
        if o == 'bin':
            return self.bin(a[0], self(a[1]), self(a[2]), t)
        if o == 'un':
            v = self(a[1])
            if a[0] == '-':
                return self.map1(lambda p: p.scale(-1), v)
            if a[0] == '+':
                return v
            raise Unk('unary %s' % a[0])
        if o in ('tuple', 'list'):
            return tuple(self(x) for x in a[0])
        if o == 'slice':
            return Slice(*[None if x is NONE else self.num(x) for x in a])
        if o == 'phi':
            d = self.cond(a[0])
            if d is None:
                raise Unk('condition %s' % show(a[0], 5))
            return self(a[1] if d else a[2])
        if o == 'attr':
            return self.attr(self(a[0]), a[1], t)
        if o == 'index':
            return self.index(self(a[0]), self(a[1]), t)
        if o == 'store':
            return self.store(t)
        if o == 'call':
            return self.call(t)
        if o == 'mcall':
            return self.mcall(t)
        if o == 'listcat':
            vs = [self(x) for x in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a)]
            r = vs[0]
            for x in vs[1:]:
                r = self.cat(r, x)
            return r
        if o == 'append':
            return self.cat(self(a[0]), (self(a[1]),))
        if o == 'comp':
            return self.comp(t)
        if o == 'loopout':
            return self.loopout(t)
        if o == 'mu':
            if t in self.mus:
                return self.mus[t]
            return self.induction(t)
        if o in ('sym', 'glob', 'prim', 'obj'):
            return Opq(t)
        raise Unk('term %s' % show(t, 4))

    def cond(self, c):
        d = self.dec(c)
        if d is not None:
            return d
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == 'phi':
            d = self.cond(c.args[0])
            return None if d is None else self.cond(c.args[1] if d else c.args[2])
        if c.op == 'not':
            d = self.cond(c.args[0])
            return None if d is None else not d
        if c.op == 'bool':
            ds = [self.cond(x) for x in c.args[1]]
            if c.args[0] == 'and':
                return False if False in ds else (True if all(ds) else None) if None not in ds else None
            return True if True in ds else (False if None not in ds else None)
        if c.op == 'cmp' and c.args[0] in ('<', '=='):
            x, y = self(c.args[1]), self(c.args[2])
            if isinstance(x, tuple) and isinstance(y, tuple) and c.args[0] == '==' and len(x) != len(y):
                return False
            if isinstance(x, tuple) and isinstance(y, tuple) and c.args[0] == '==' and len(x) == len(y) and all(isinstance(z, Poly) for z in x + y):
                return all(self.eq(p, q) for p, q in zip(x, y))
            if isinstance(x, Poly) and isinstance(y, Poly):
                return self.lt(x, y) if c.args[0] == '<' else self.eq(x, y)
        if c.op == 'cmp' and c.args[0] == 'is' and c.args[2] is NONE:
            v = self(c.args[1])
            if v is NON:
                return True
            if isinstance(v, (Poly, Arr, Lst, tuple)):
                return False
        if c.op == 'bin' or c in self.inputs and c.op == 'sym' or (c.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0] == 'builtins.len'):
            v = self(c)
            if isinstance(v, Poly) and (c.op != 'sym' or plain(v)):
                return not self.eq(v, ZERO)
        return None

    def kindof(self, x, dt):
        """Data converted to the kind of numbers of other data (which may be integers, or real)."""
        if dt is None or dt.op != 'attr' or dt.args[1] != 'dtype':
            return
        mine = {y for y in walk(x) if y.op == 'sym' and isinstance(self.inputs.get(y), Arr)}
        theirs = {y for y in walk(dt) if y.op == 'sym'}
        if mine and theirs and not mine & theirs and not any(y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0].split('.')[-1] in (
                'result_type', 'promote_types', 'common_type', 'find_common_type', 'can_cast', 'iscomplexobj') for y in walk(dt)):
            raise Fails('%s converted to the kind of %s, which may be narrower,' % (show(x, 3), show(dt.args[0], 3)))

    # ---- arithmetic
    def map1(self, f, v):
        if isinstance(v, Poly):
            return f(v)
        if isinstance(v, (Lst, tuple)):
            v = self.asarr(v)
        if isinstance(v, Arr):
            r = Arr(v.shape, lambda i: f(v.get(i)))
            if v.origin is not None:
                r.origin = self.map1(f, v.origin)
            return r
        if isinstance(v, Opq):
            return f(Poly.atom(('obj', v.key)))
        raise Unk('operand %r' % (v,))

    def bcast(self, x, y, f):
        n = max(len(x.shape), len(y.shape))
        sx = [ONE] * (n - len(x.shape)) + list(x.shape)
        sy = [ONE] * (n - len(y.shape)) + list(y.shape)
        sh = []
        for p, q in zip(sx, sy):
            if p == ONE:
                sh.append(q)
            elif q == ONE or self.eq(p, q):
                sh.append(p)
            else:
                raise Unk('shapes %r %r' % (x.shape, y.shape))

        def sub(v, i):
            i = i[n - len(v.shape):]
            return v.get([ZERO if s == ONE else e for s, e in zip(v.shape, i)])
        return Arr(sh, lambda i: f(sub(x, i), sub(y, i)))

    def bin(self, op, x, y, t=None):
        if op == '+' and isinstance(x, (tuple, Lst)) and isinstance(y, (tuple, Lst)):
            return self.cat(x, y)
        if op == '*' and isinstance(x, (tuple, Lst)) and isinstance(y, Poly):
            return self.rep(x, y)
        if op == '*' and isinstance(y, (tuple, Lst)) and isinstance(x, Poly):
            return self.rep(y, x)
        f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': mulp,
             '/': lambda p, q: mulp(p, recip(q)), '//': self.fdiv, '%': self.mod, '**': self.pow}.get(op)
        if op == '@':
            return self.dot(self.asarr(x), self.asarr(y))
        if f is None:
            raise Unk('operator %s' % op)
        if isinstance(x, Opq):
            x = Poly.atom(('obj', x.key))
        if isinstance(y, Opq):
            y = Poly.atom(('obj', y.key))
        if isinstance(x, Poly) and isinstance(y, Poly):
            return f(x, y)
        if x is NON or y is NON:
            raise Unk('None operand')
        return self.bcast(self.asarr(x), self.asarr(y), f)

    def fdiv(self, p, q):
        r = floordiv(p, q)
        if q.isconst() and q.value() > 0 and q.value().denominator == 1 and all(v.denominator == 1 for v in p.d.values()) \
                and any(isinstance(a, tuple) and a and a[0] == '//' for a in r.atoms()):
            d = p - r * q
            self.facts.add(d)
            self.facts.add(q - ONE - d)
        return r

    def mod(self, p, q):
        return p - self.fdiv(p, q) * q

    def pow(self, p, q):
        if q.isconst() and q.value().denominator == 1 and 0 <= q.value() < 6:
            r = ONE
            for _ in range(int(q.value())):
                r = r * p
            return r
        if q.isconst() and q.value() == -1:
            return recip(p)
        return Poly.atom(('app', 'pow', (p, q)))

    def cat(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x + y
        nx, gx = self.seq(x)
        ny, gy = self.seq(y)
        return Lst(nx + ny, lambda i: gx(i) if self.lt(i, nx) else gy(i - nx))

    def rep(self, x, n):
        if isinstance(x, tuple) and len(x) == 1:
            return Lst(n, lambda i: x[0])
        raise Unk('list repetition')

    def dot(self, x, y):
        if not x.shape or not y.shape:
            return self.bcast(x, y, mulp)
        if x.origin is not None and y.origin is not None and len(x.origin.shape) == len(y.origin.shape) and \
                all(self.eq(a, b) for a, b in zip(x.origin.shape, y.origin.shape)):
            u, w = x.origin, y.origin
            return self.sum(Arr(u.shape, lambda i: mulp(u.get(i), w.get(i))), None)
        n = x.shape[-1]
        ax = 0 if len(y.shape) == 1 else len(y.shape) - 2
        if not self.eq(n, y.shape[ax]):
            self.differ(n, y.shape[ax], 'dot of %r and %r' % (x.shape, y.shape))
        sh = list(x.shape[:-1]) + list(y.shape[:ax]) + list(y.shape[ax + 1:])

        def get(i):
            v = fresh('k')
            self.facts.add(Poly.atom(v))
            self.facts.add(n - Poly.atom(v) - ONE)
            ix = list(i[:len(x.shape) - 1]) + [Poly.atom(v)]
            r = list(i[len(x.shape) - 1:])
            iy = r[:ax] + [Poly.atom(v)] + r[ax:]
            try:
                return mksum(v, n, mulp(x.get(ix), y.get(iy)))
            except Split as e:
                if v in e.p.atoms():
                    raise Unk('case distinction inside a sum: %r' % (e.p,))
                raise
        r = Arr(sh, get)
        return r.get([]) if not sh else r

    # ---- structure
    def attr(self, v, name, t):
        if isinstance(v, (Lst, tuple)) and name in ('T', 'shape', 'ndim', 'size'):
            v = self.asarr(v)
        if isinstance(v, Arr):
            if name == 'T':
                return self.transpose(v)
            if name == 'shape':
                return tuple(v.shape)
            if name == 'ndim':
                return K(len(v.shape))
            if name == 'size':
                r = ONE
                for s in v.shape:
                    r = r * s
                return r
            if name in ('flat',):
                return self.flatten(v)
            if name == 'dtype':
                return Opq(t)
            if name in ('real', 'imag'):
                return self.map1(lambda p: self.apply(name, p), v)
        if isinstance(v, Poly):
            if name == 'ndim':
                return ZERO
            if name == 'shape':
                return ()
        if isinstance(v, Opq):
            return Opq(('attr', v.key, name))
        raise Unk('attribute %s' % name)

    def apply(self, name, *ps):
        if name == 'real' and conj_poly(ps[0]) == ps[0]:
            return ps[0]
        return Poly.atom(('app', name, tuple(ps)))

    def transpose(self, v, axes=None):
        n = len(v.shape)
        axes = list(range(n))[::-1] if axes is None else axes
        inv = [axes.index(k) for k in range(n)]
        return Arr([v.shape[a] for a in axes], lambda i: v.get([i[inv[k]] for k in range(n)]))

    def ordered(self, v, args, kw, k, fortran=True):
        """The array whose C order is the order asked for."""
        o = args[k] if len(args) > k else dict(kw).get('order')
        if o is None or o.op == 'const' and o.args[0] in ('C', 'K', 'A'):
            return v
        if o.op == 'const' and o.args[0] == 'F' and fortran:
            return self.transpose(v)
        raise Unk('order')

    def flatten(self, v):
        if len(v.shape) == 1:
            return v
        if not v.shape:
            return Arr([ONE], lambda i: v.get([]))
        n = ONE
        for s in v.shape:
            n = n * s

        def get(i):
            e = i[0]
            idx = []
            for s in reversed(v.shape[1:]):
                e, r = self.divmod(e, s)
                idx.insert(0, r)
            return v.get([e] + idx)
        r = Arr([n], get)
        r.origin = v
        return r

    def reshape(self, v, shape):
        shape = list(shape)
        tot = ONE
        for s in v.shape:
            tot = tot * s
        neg = [k for k, s in enumerate(shape) if s.isconst() and s.value() == -1]
        if neg:
            rest = ONE
            for k, s in enumerate(shape):
                if k not in neg:
                    rest = rest * s
            shape[neg[0]] = floordiv(tot, rest)
        # inserted or removed unit axes
        core_v = [(k, s) for k, s in enumerate(v.shape) if s != ONE]
        core_s = [(k, s) for k, s in enumerate(shape) if s != ONE]
        if len(core_v) == len(core_s) and all(self.facts.eq(a[1], b[1]) for a, b in zip(core_v, core_s)):
            def get(i):
                j = [ZERO] * len(v.shape)
                for (kv, _), (ks, _) in zip(core_v, core_s):
                    j[kv] = i[ks]
                return v.get(j)
            return Arr(shape, get)
        flat = self.flatten(v)

        def get(i):
            e = i[0]
            for s, x in zip(shape[1:], i[1:]):
                e = e * s + x
            return flat.get([e])
        return Arr(shape, get)

    def index(self, v, i, t=None):
        if isinstance(v, Opq):
            if isinstance(i, Poly):
                return Opq(('item', v.key, i))
            raise Unk('index of %r' % (v,))
        if isinstance(v, (tuple, Lst)):
            if isinstance(i, Poly):
                n, g = self.seq(v)
                if i.isconst() and i.value() < 0:
                    i = i + n
                if isinstance(v, tuple) and i.isconst():
                    return v[int(i.value())]
                return g(i)
            if isinstance(i, Slice) and isinstance(v, tuple) and all(x is None or x.isconst() for x in (i.a, i.b, i.s)):
                return v[slice(*[None if x is None else int(x.value()) for x in (i.a, i.b, i.s)])]
            if isinstance(i, Slice):
                n, g = self.seq(v)
                st, cnt, step = self.slice(i, n)
                return Lst(cnt, lambda k: g(st + k * step))
            raise Unk('index of a sequence')
        if not isinstance(v, Arr):
            raise Unk('index of %r' % (v,))
        idx = list(i) if isinstance(i, tuple) else [i]
        return self.getitem(v, idx)

    def slice(self, s, n):
        step = ONE if s.s is None else s.s
        if not step.isconst():
            raise Unk('slice step')
        if step.value() < 0:
            if step.value() == -1 and s.a is None and s.b is None:
                return n - ONE, n, step
            raise Unk('negative step')
        a = ZERO if s.a is None else self.clamp(s.a, n)
        b = n if s.b is None else self.clamp(s.b, n)
        cnt = b - a
        if not self.ge(cnt):
            cnt = ZERO
        if step.value() != 1:
            d = cnt + step - ONE
            cnt = self.fdiv_dec(d, step)
        return a, cnt, step

    def fdiv_dec(self, d, step):
        """ceil division of a length by a constant step."""
        r = floordiv(d, step)
        if not any(isinstance(a, tuple) and a and a[0] == '//' for a in r.atoms()):
            return r
        q, rem = Poly(), Poly()
        for k, v in d.d.items():
            if (v / step.value()).denominator == 1:
                q = q + Poly({k: v / step.value()})
            elif k == ():
                fl = v // step.value()
                q, rem = q + K(fl), rem
            else:
                return r
        return q

    def getitem(self, v, idx):
        n = len(v.shape)
        if ELL in idx:
            k = idx.index(ELL)
            used = sum(1 for x in idx if x is not ELL and x is not NON)
            idx = idx[:k] + [Slice(None, None, None)] * (n - used) + idx[k + 1:]
        plan, sh, fancy = [], [], []
        ax = 0
        for x in idx:
            if x is NON:
                plan.append(('new',))
                sh.append(ONE)
                continue
            if ax >= n:
                raise Unk('too many indices')
            d = v.shape[ax]
            if isinstance(x, Poly):
                if x.isconst() and x.value() < 0:
                    x = x + d
                plan.append(('at', x))
            elif isinstance(x, Slice):
                st, cnt, step = self.slice(x, d)
                plan.append(('sl', st, step))
                sh.append(cnt)
            elif isinstance(x, (Arr, tuple, Lst)):
                x = self.asarr(x)
                fancy.append(len(plan))
                plan.append(('fa', x))
                sh.append(('F',))
            else:
                raise Unk('index %r' % (x,))
            ax += 1
        while ax < n:
            plan.append(('sl', ZERO, ONE))
            sh.append(v.shape[ax])
            ax += 1
        fsh = []
        if fancy:
            fs = [plan[k][1] for k in fancy]
            nd = max(len(f.shape) for f in fs)
            for k in range(nd):
                d = ONE
                for f in fs:
                    kk = k - (nd - len(f.shape))
                    if kk >= 0 and f.shape[kk] != ONE:
                        d = f.shape[kk]
                fsh.append(d)
            # ints among fancy indices make their axis fancy too: only contiguous ones are handled
            if any(b - a != 1 for a, b in zip(fancy, fancy[1:])) or any(p[0] == 'at' for p in plan):
                raise Unk('mixed advanced indexing')
            pos = sh.index(('F',))
            sh2 = [s for s in sh[:pos] if s != ('F',)] + fsh + [s for s in sh[pos:] if s != ('F',)]
        else:
            sh2 = sh

        def get(i):
            i = list(i)
            out = []
            p = 0
            fi = None
            for e in plan:
                if e[0] == 'new':
                    p += 1
                elif e[0] == 'at':
                    out.append(e[1])
                elif e[0] == 'sl':
                    out.append(e[1] + i[p] * e[2])
                    p += 1
                else:
                    if fi is None:
                        fi = i[p:p + len(fsh)]
                        p += len(fsh)
                    f = e[1]
                    j = fi[len(fi) - len(f.shape):]
                    out.append(f.get([ZERO if s == ONE else x for s, x in zip(f.shape, j)]))
            return v.get(out)
        if not sh2:
            return get([])
        return Arr(sh2, get)

    def store(self, t):
        base = self(t.args[0])
        if isinstance(base, (tuple, Lst)):
            n, g = self.seq(base)
            i = self.num(t.args[1])
            val = self(t.args[2])
            if i.isconst() and i.value() < 0:
                i = i + n
            return Lst(n, lambda j: val if self.eq(i, j) else g(j))
        base = self.asarr(base)
        iv = self(t.args[1])
        idx = list(iv) if isinstance(iv, tuple) else [iv]
        val = self.asarr(self(t.args[2]))
        n = len(base.shape)
        if ELL in idx:
            k = idx.index(ELL)
            idx = idx[:k] + [Slice(None, None, None)] * (n - len(idx) + 1) + idx[k + 1:]
        idx = idx + [Slice(None, None, None)] * (n - len(idx))
        plan = []
        for x, d in zip(idx, base.shape):
            if isinstance(x, Poly):
                plan.append(('at', x + d if x.isconst() and x.value() < 0 else x))
            elif isinstance(x, Slice):
                plan.append(('sl',) + self.slice(x, d))
            else:
                raise Unk('store index')
        rsh = [p[2] for p in plan if p[0] == 'sl']
        vs = list(val.shape)
        if len(vs) > len(rsh):
            while len(vs) > len(rsh) and vs[0] == ONE:
                vs = vs[1:]
                old = val
                val = Arr(vs, (lambda o: lambda i: o.get([ZERO] + list(i)))(old))
            if len(vs) > len(rsh):
                raise Unk('store shape')
        for a, b in zip(vs, rsh[len(rsh) - len(vs):]):
            if a != ONE and not self.eq(a, b):
                self.differ(a, b, 'store of shape %r into %r' % (vs, rsh))

        def get(i):
            sub = []
            for p, e in zip(plan, i):
                if p[0] == 'at':
                    if not self.eq(p[1], e):
                        return base.get(i)
                else:
                    _, st, cnt, step = p
                    d = e - st
                    if not self.ge(d):
                        return base.get(i)
                    if step != ONE:
                        d, r = self.divmod(d, step)
                        if not self.eq(r, ZERO):
                            return base.get(i)
                    if not self.lt(d, cnt):
                        return base.get(i)
                    sub.append(d)
            j = sub[len(sub) - len(val.shape):]
            return val.get([ZERO if s == ONE else x for s, x in zip(val.shape, j)])
        return Arr(base.shape, get)

    # ---- loops
    def induction(self, t):
        """A loop variable that grows by the same amount in every iteration."""
        lid, key = t.args
        L = self.loops.get(lid)
        it = self.env.get(lid)
        if L is None or L.kind != 'for' or it is None or L.continues or key not in L.init or key not in L.back:
            raise Unk('loop-carried value %s' % show(t))
        mu = mk('mu', lid, key)
        acc = self.accum(L.back[key], mu)
        if acc is None or any(x.op in ('lv', 'mu') and x.args[0] == lid for x in walk(acc[1])):
            raise Unk('loop-carried value %s' % show(t))
        return self.num(L.init[key]) + (self.num(acc[1]) * it).scale(acc[0])

    def comp(self, t):
        lid, cnt, elt, conds = t.args[:4]
        if conds:
            raise Unk('filtered comprehension')
        n = self.num(cnt) if isinstance(cnt, T) else cnt
        return Lst(n, lambda i: self.with_env(lid, i)(elt))

    def loopout(self, t):
        lid, key, init, back = t.args[:4]
        L = self.loops.get(lid)
        if L is None or L.kind != 'for' or L.breaks or L.returns or L.continues:
            raise Unk('loop %s' % lid)
        n = self.num(L.count)
        mu = mk('mu', lid, key)
        base = self(init) if init.op != 'undef' else None
        # accumulation: back = mu + f
        acc = self.accum(back, mu)
        if acc is not None:
            sign, f = acc

            def body(i, idx):
                v = self.with_env(lid, i)(f)
                return self.asarr(v).get(idx)
            b0 = self.asarr(base)
            f0 = self.asarr(self.with_env(lid, ZERO)(f))
            sh = f0.shape if len(f0.shape) > len(b0.shape) else b0.shape

            def get(idx):
                v = fresh('i')
                old = list(self.facts.f)
                self.facts.add(Poly.atom(v))
                self.facts.add(n - Poly.atom(v) - ONE)
                try:
                    s = mksum(v, n, body(Poly.atom(v), list(idx)))
                except Split as e:
                    if v in e.p.atoms():
                        raise Unk('case distinction inside a sum: %r' % (e.p,))
                    raise
                finally:
                    self.facts.reset(old)
                b = b0.get(list(idx)[len(idx) - len(b0.shape):])
                return b + s.scale(sign)
            return get([]) if not sh else Arr(sh, get)
        if base is None:
            raise Unk('loop value')
        if back.op == 'append' and back.args[0] is mu:
            return self.cat(base, Lst(n, lambda i: self.with_env(lid, i)(back.args[1])))
        b0 = self.asarr(base)
        tag = 'before:%s:%s' % (lid, key)

        def mark(i):
            return Poly.atom(('el', tag, '', tuple(i)))

        def at(i, read=mark):
            e = self.with_env(lid, i)
            e.mus[mu] = Arr(b0.shape, read)
            return e.asarr(e(back))

        def state(v, idx):
            """What an iteration makes of the element idx: kept, reads (elements before the iteration), or new."""
            if not isinstance(v, Poly):
                return 'new'
            marks = [x for x in atoms_deep(v) if isinstance(x, tuple) and x[0] == 'el' and x[1] == tag]
            if not marks:
                return 'new'
            if len(marks) == 1 and v == Poly.atom(marks[0]) and self.same(marks[0][3], idx):
                return 'kept'
            return 'reads'

        def settled(idx, own, lo, hi):
            """Reads of elements before an iteration, in terms of those before the loop."""
            def read(i):
                if self.same(i, idx):
                    return own
                if self.untouched(at, state, i, ZERO, n):
                    return b0.get(list(i))
                raise Unk('an iteration reads elements written by others')
            return read

        def get(idx):
            for c, sure in self.candidates(lid, back, idx):
                if sure:
                    if not self.ge(c) or not self.ge(n - ONE - c):
                        continue
                elif not self.facts.ge(c) or not self.facts.ge(n - ONE - c):
                    continue
                v = at(c).get(idx)
                k = state(v, idx)
                if k == 'kept':
                    continue
                if not self.untouched(at, state, idx, c + ONE, n):
                    if k == 'reads':
                        break
                    raise Unk('a later iteration may overwrite the element')
                if k == 'reads':
                    if not self.untouched(at, state, idx, ZERO, c):
                        break
                    v = at(c, settled(idx, b0.get(idx), ZERO, n)).get(idx)
                return v
            if self.untouched(at, state, idx, ZERO, n):
                return b0.get(idx)
            return accumulate(idx)

        def accumulate(idx):
            """Every iteration adds to the element."""
            v = fresh('i')
            p = Poly.atom(v)
            old = list(self.facts.f)
            self.facts.add(p)
            self.facts.add(n - p - ONE)
            own = mark(idx)
            try:
                f = at(p, settled(idx, own, ZERO, n)).get(idx) - own
                if any(isinstance(x, tuple) and x[0] == 'el' and x[1] == tag for x in atoms_deep(f)):
                    raise Unk('the iteration writing the element is not determined')
                s = mksum(v, n, f)
            except Split as e:
                if v in e.p.atoms():
                    raise Unk('case distinction inside a sum: %r' % (e.p,))
                raise
            finally:
                self.facts.reset(old)
            return b0.get(idx) + s
        return Arr(b0.shape, get)

    def same(self, i, j):
        return len(i) == len(j) and all(x == y or self.facts.eq(x, y) is True for x, y in zip(i, j))

    def untouched(self, at, state, idx, lo, n):
        v = fresh('it')
        p = Poly.atom(v)
        saved = self.facts
        old = list(saved.f)
        ok = [True]

        def run():
            if state(at(p).get(list(idx)), idx) != 'kept':
                ok[0] = False
        base = list(saved.f) + [p - lo, n - ONE - p] + ([p] if saved.ge(lo) else [])
        work = [base]
        k = 0
        while work and ok[0]:
            fs = work.pop()
            self.facts.reset(fs)
            if not self.facts.feasible():
                continue
            k += 1
            if k > 24:
                ok[0] = False
                break
            try:
                run()
            except Split as e:
                if DEBUG: print('UNT split', e.p, 'facts', fs)
                work.append(fs + [e.p])
                work.append(fs + [e.p.scale(-1) - ONE])
            except Fails:
                self.facts.reset(old)
                raise
            except Unk as e:
                if DEBUG: print('UNT unk', e)
                ok[0] = False
        self.facts.reset(old)
        return ok[0]

    def candidates(self, lid, back, idx):
        out = []

        def add(p, sure=True):
            if all(p != x[0] for x in out) and all(v.denominator == 1 for v in p.d.values()):
                out.append((p, sure))
        # solve store indices linear in the loop variable
        lvs = [x for x in walk(back) if x.op == 'lv' and x.args[0] == lid]
        v = lvs[0] if lvs else None
        if v is None and lid in self.loops:
            v = mk('lv', lid, self.loops[lid].count)
        e = self.with_env('no', ZERO)
        if v is not None:
            e.env[lid] = Poly.atom(v)
            for s in walk(back):
                if s.op != 'store':
                    continue
                its = s.args[1].args[0] if s.args[1].op == 'tuple' else (s.args[1],)
                for it, x in zip(its, idx):
                    a = it.args[0] if it.op == 'slice' else it
                    if a is NONE:
                        continue
                    try:
                        p = e.num(a)
                    except (Unk, Split):
                        continue
                    cq = p.coeff(v)
                    if cq is None or not cq[0].d:
                        continue
                    c, q = cq
                    if c.isconst() and abs(c.value()) == 1:
                        add((x - q).scale(1 / c.value()))
                    elif it.op == 'slice':
                        try:
                            add(self.divmod(x - q, c)[0])
                        except (Unk, Split):
                            pass
        for h in self.hints:
            add(h, False)
        return out

    def accum(self, back, mu):
        """back = mu + f (or mu - f) with f free of mu."""
        def has(x):
            return any(y is mu for y in walk(x))
        if back.op == 'bin' and back.args[0] in ('+', '-'):
            a, b = back.args[1], back.args[2]
            if a is mu and not has(b):
                return (1 if back.args[0] == '+' else -1), b
            if b is mu and not has(a) and back.args[0] == '+':
                return 1, a
        return None

    # ---- calls
    def call(self, t):
        f, args, kw = t.args
        kw = dict(kw)
        if f.op != 'ext':
            if f.op in ('sym', 'attr', 'bound', 'obj', 'glob', 'mcall') or True:
                return Opq(('app', f, tuple(self.keyof(self(x)) for x in args), tuple(sorted((k, self.keyof(self(v))) for k, v in kw.items()))))
        n = f.args[0]
        if n.startswith('numpy.'):
            return self.np(n[6:], args, kw, t)
        if n == 'builtins.len':
            v = self(args[0])
            if isinstance(v, Opq):
                return Poly.atom(('dim', v.key, 0))
            return self.seq(v)[0]
        if n in ('builtins.int', 'builtins.float'):
            return self.num(args[0])
        if n in ('builtins.list', 'builtins.tuple'):
            v = self(args[0])
            if isinstance(v, (tuple, Lst)):
                return v
            c, g = self.seq(v)
            return Lst(c, g)
        if n == 'builtins.range':
            b = [self.num(x) for x in args]
            if len(b) == 1:
                return Lst(b[0], lambda i: i)
            if len(b) == 2:
                return Lst(b[1] - b[0], lambda i: b[0] + i)
        if n == 'builtins.sum' and len(args) == 1:
            c, g = self.seq(self(args[0]))
            v = fresh('s')
            self.facts.add(Poly.atom(v))
            self.facts.add(c - Poly.atom(v) - ONE)
            x = self.asarr(g(Poly.atom(v)))
            if not x.shape:
                return mksum(v, c, x.get([]))
            return Arr(x.shape, lambda i: mksum(v, c, x.get(i)))
        if n in ('builtins.abs',):
            return self.map1(lambda p: self.absp(p), self(args[0]))
        if n in ('builtins.min', 'builtins.max') and len(args) == 2:
            a, b = self.num(args[0]), self.num(args[1])
            less = self.ge(b - a)
            return (a if less else b) if n.endswith('min') else (b if less else a)
        if n == 'scipy.linalg.hankel':
            c = self.flatten(self.arr(args[0]))
            if len(args) + len(kw) == 1:
                r = Arr(c.shape, lambda i: ZERO)
            else:
                r = self.flatten(self.arr(args[1] if len(args) > 1 else kw['r']))

            def get(i):
                e = i[0] + i[1]
                return c.get([e]) if self.lt(e, c.shape[0]) else r.get([e - c.shape[0] + ONE])
            return Arr([c.shape[0], r.shape[0]], get)
        raise Unk('call of %s' % n)

    def absp(self, p):
        if p.isconst():
            return K(abs(p.value()))
        (k, v), = p.d.items() if len(p.d) == 1 else ((None, None),)
        if k is not None:
            return Poly.atom(('app', 'abs', (Poly({k: abs(v)}),)))
        return Poly.atom(('app', 'abs', (p,)))

    def keyof(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Opq):
            return v.key
        if v is NON:
            return None
        if isinstance(v, Arr) and v.tag:
            return ('arr', v.tag)
        if isinstance(v, Arr) and not v.shape:
            return v.get([])
        if isinstance(v, Arr):
            vs = [fresh('a') for _ in v.shape]
            e = v.get([Poly.atom(x) for x in vs])
            m = {x: Poly.atom(('bv', 100 + k)) for k, x in enumerate(vs)}
            return ('arr', tuple(v.shape), subst_poly(e, m))
        if isinstance(v, tuple):
            return tuple(self.keyof(x) for x in v)
        raise Unk('key of %r' % (v,))

    def npseq(self, t):
        v = self(t)
        n, g = self.seq(v)
        return n, g

    def concat(self, vs, axis):
        vs = [self.asarr(x) for x in vs]
        r = vs[0]
        if axis < 0:
            axis += len(r.shape)
        for y in vs[1:]:
            r = self.concat2(r, y, axis)
        return r

    def concat2(self, x, y, axis):
        if len(x.shape) != len(y.shape):
            raise Unk('concatenation of %d-d and %d-d' % (len(x.shape), len(y.shape)))
        n = x.shape[axis]

        def get(i):
            if self.lt(i[axis], n):
                return x.get(i)
            j = list(i)
            j[axis] = j[axis] - n
            return y.get(j)
        sh = list(x.shape)
        sh[axis] = n + y.shape[axis]
        return Arr(sh, get)

    def concat_any(self, v, axis):
        """Concatenate a sequence of equally shaped blocks (or a fixed few)."""
        if isinstance(v, tuple):
            return self.concat(v, axis)
        if isinstance(v, Arr) and v.shape and v.shape[0].isconst():
            n = int(v.shape[0].value())
            return self.concat([Arr(v.shape[1:], (lambda k: lambda j: v.get([K(k)] + list(j)))(k)) for k in range(n)], axis)
        n, g = self.seq(v)
        f = self.asarr(g(ZERO))
        if not f.shape:
            raise Unk('concatenation of scalars')
        if axis < 0:
            axis += len(f.shape)
        # blocks of equal extent: checked at a symbolic position
        q = fresh('blk')
        self.facts.add(Poly.atom(q))
        self.facts.add(n - Poly.atom(q) - ONE)
        if not self.eq(self.asarr(g(Poly.atom(q))).shape[axis], f.shape[axis]):
            raise Unk('blocks of different extent')
        self.uniform(n, lambda i: self.asarr(g(i)), f, axis)
        b = f.shape[axis]
        sh = list(f.shape)
        sh[axis] = n * b

        def get(i):
            k, r = self.divmod(i[axis], b)
            j = list(i)
            j[axis] = r
            return self.asarr(g(k)).get(j)
        return Arr(sh, get)

    def axis(self, args, kw, pos, default):
        t = kw.get('axis', args[pos] if len(args) > pos else None)
        if t is None:
            return default
        v = self(t)
        if v is NON:
            return None
        if isinstance(v, Poly) and v.isconst():
            return int(v.value())
        raise Unk('axis')

    def np(self, n, args, kw, t):
        if n in ('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'copy', 'asfarray', 'require'):
            self.kindof(args[0], args[1] if len(args) > 1 else kw.get('dtype'))
            return self.asarr(self(args[0]))
        if n in ('zeros', 'ones', 'empty', 'full'):
            s = self(args[0] if args else kw['shape'])
            sh = [s] if isinstance(s, Poly) else list(s) if isinstance(s, tuple) else None
            if sh is None:
                raise Unk('shape %r' % (s,))
            if n == 'empty':
                return Arr(sh, lambda i: Poly.atom(('uninit', t)))
            if n == 'full':
                c = self.num(args[1])
            else:
                c = ZERO if n == 'zeros' else ONE
            return Arr(sh, lambda i: c)
        if n in ('zeros_like', 'ones_like', 'empty_like'):
            s = self.arr(args[0])
            c = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': Poly.atom(('uninit', t))}[n]
            return Arr(s.shape, lambda i: c)
        if n in ('concatenate', 'vstack', 'hstack', 'row_stack'):
            v = self(args[0])
            if n == 'concatenate':
                ax = self.axis(args, kw, 1, 0)
                if ax is None:
                    raise Unk('axis None')
                return self.concat_any(v, ax)
            nn, g = self.seq(v)
            f = self.asarr(g(ZERO))
            if n == 'hstack':
                return self.concat_any(v, 0 if len(f.shape) <= 1 else 1)
            if len(f.shape) == 1:
                return Arr([nn] + list(f.shape), lambda i: self.asarr(g(i[0])).get(i[1:]))
            return self.concat_any(v, 0)
        if n == 'append' and len(args) >= 2:
            x, y = self.asarr(self(args[0])), self.asarr(self(args[1]))
            ax = self.axis(args, kw, 2, None)
            if ax is None and not (len(x.shape) == 1 and len(y.shape) == 1):
                raise Unk('append of flattened arrays')
            return self.concat_any((x, y), 0 if ax is None else ax)
        if n == 'block':
            v = self(args[0])
            nn, g = self.seq(v)
            row0 = g(ZERO)
            if isinstance(row0, (tuple, Lst)):
                rows = tuple(self.concat_any(x, -1) for x in v) if isinstance(v, tuple) else Lst(nn, lambda i: self.concat_any(g(i), -1))
                return self.concat_any(rows, 0)
            return self.concat_any(v, -1)
        if n == 'stack':
            nn, g = self.seq(self(args[0]))
            ax = self.axis(args, kw, 1, 0)
            f = self.asarr(g(ZERO))
            if ax < 0:
                ax += len(f.shape) + 1
            return Arr(list(f.shape[:ax]) + [nn] + list(f.shape[ax:]), lambda i: self.asarr(g(i[ax])).get(i[:ax] + i[ax + 1:]))
        if n == 'dot' or n == 'matmul':
            return self.dot(self.arr(args[0]), self.arr(args[1]))
        if n in ('conj', 'conjugate'):
            return self.map1(conj_poly, self(args[0]))
        if n in ('abs', 'absolute'):
            return self.map1(self.absp, self(args[0]))
        if n in ('add', 'subtract', 'multiply', 'divide', 'true_divide'):
            return self.bin({'add': '+', 'subtract': '-', 'multiply': '*'}.get(n, '/'), self(args[0]), self(args[1]))
        if n == 'add.outer':
            x, y = self.arr(args[0]), self.arr(args[1])
            return Arr(list(x.shape) + list(y.shape), lambda i: x.get(i[:len(x.shape)]) + y.get(i[len(x.shape):]))
        if n in ('negative',):
            return self.map1(lambda p: p.scale(-1), self(args[0]))
        if n == 'transpose':
            ax = None
            if len(args) > 1 or 'axes' in kw:
                a = self(args[1] if len(args) > 1 else kw['axes'])
                ax = [int(p.value()) for p in a]
            return self.transpose(self.arr(args[0]), ax)
        if n in ('swapaxes', 'moveaxis'):
            return getattr(self, n)(self.arr(args[0]), self.num(args[1]), self.num(args[2]))
        if n in ('ravel',):
            return self.flatten(self.ordered(self.arr(args[0]), args, kw, 1))
        if n == 'squeeze' and len(args) == 1 and not kw:
            return self.squeeze(self.arr(args[0]))
        if n == 'diag' and len(args) == 1 and not kw:
            x = self.arr(args[0])
            if len(x.shape) == 1:
                return Arr([x.shape[0], x.shape[0]], lambda i: x.get([i[0]]) if self.eq(i[0], i[1]) else ZERO)
            if len(x.shape) == 2:
                m = x.shape[0] if self.ge(x.shape[1] - x.shape[0]) else x.shape[1]
                return Arr([m], lambda i: x.get([i[0], i[0]]))
        if n == 'reshape':
            self.ordered(None, args, kw, 2, False)
            s = self(args[1])
            return self.reshape(self.arr(args[0]), [s] if isinstance(s, Poly) else s)
        if n == 'arange':
            b = [self.num(x) for x in args]
            lo, hi = (ZERO, b[0]) if len(b) == 1 else (b[0], b[1])
            if len(b) > 2:
                raise Unk('arange step')
            return Arr([hi - lo], lambda i: lo + i[0])
        if n == 'diff':
            v = self.arr(args[0])
            if len(args) > 1 or kw or len(v.shape) != 1:
                raise Unk('diff')
            return Arr([v.shape[0] - ONE], lambda i: v.get([i[0] + ONE]) - v.get([i[0]]))
        if n in ('atleast_2d',):
            v = self.arr(args[0])
            if len(v.shape) >= 2:
                return v
            if len(v.shape) == 1:
                return Arr([ONE] + v.shape, lambda i: v.get([i[1]]))
            return Arr([ONE, ONE], lambda i: v.get([]))
        if n == 'atleast_1d':
            v = self.arr(args[0])
            return v if v.shape else Arr([ONE], lambda i: v.get([]))
        if n == 'expand_dims':
            v = self.arr(args[0])
            ax = self.axis(args, kw, 1, 0)
            if ax < 0:
                ax += len(v.shape) + 1
            return Arr(v.shape[:ax] + [ONE] + v.shape[ax:], lambda i: v.get(i[:ax] + i[ax + 1:]))
        if n in ('repeat',):
            v = self.arr(args[0])
            r = self.num(args[1] if len(args) > 1 else kw['repeats'])
            ax = self.axis(args, kw, 2, None)
            if ax is None:
                if len(v.shape) != 1:
                    raise Unk('repeat')
                ax = 0

            def get(i):
                j = list(i)
                j[ax] = self.divmod(j[ax], r)[0]
                return v.get(j)
            sh = list(v.shape)
            sh[ax] = sh[ax] * r
            return Arr(sh, get)
        if n in ('vdot', 'inner', 'outer', 'linalg.lstsq', 'linalg.pinv'):
            if n == 'outer':
                x, y = self.flatten(self.arr(args[0])), self.flatten(self.arr(args[1]))
                return Arr(x.shape + y.shape, lambda i: mulp(x.get(i[:1]), y.get(i[1:])))
            if n == 'vdot':
                x, y = self.map1(conj_poly, self.arr(args[0])), self.arr(args[1])
                return self.dot(self.flatten(x), self.flatten(y))
            if n == 'inner':
                x, y = self.arr(args[0]), self.arr(args[1])
                if len(x.shape) == 1 and len(y.shape) == 1:
                    return self.dot(x, y)
        if n == 'sum':
            return self.sum(self.arr(args[0]), self.axis(args, kw, 1, None))
        if n in ('round', 'rint', 'floor', 'around'):
            return self.map1(lambda p: self.apply('round' if n in ('round', 'rint', 'around') else n, p), self(args[0]))
        if n in ('ogrid', 'mgrid'):
            raise Unk('grid')
        if n == 'ix_':
            xs = [self.arr(x) for x in args]
            out = []
            for k, x in enumerate(xs):
                sh = [ONE] * len(xs)
                sh[k] = x.shape[0]
                out.append(Arr(sh, (lambda k, x: lambda i: x.get([i[k]]))(k, x)))
            return tuple(out)
        raise Unk('numpy.%s' % n)

    def sum(self, v, ax):
        if ax is None:
            v = v.origin or v
            v = self.flatten(v) if len(v.shape) <= 1 else v
            if len(v.shape) > 1:
                for _ in range(len(v.shape)):
                    v = self.asarr(self.sum(v, 0))
                return v.get([])
            ax = 0
        if ax < 0:
            ax += len(v.shape)
        n = v.shape[ax]

        def get(i):
            k = fresh('k')
            self.facts.add(Poly.atom(k))
            self.facts.add(n - Poly.atom(k) - ONE)
            j = list(i)
            j.insert(ax, Poly.atom(k))
            return mksum(k, n, v.get(j))
        sh = v.shape[:ax] + v.shape[ax + 1:]
        return Arr(sh, get) if sh else get([])

    def swapaxes(self, v, a, b):
        n = len(v.shape)
        a, b = int(a.value()) % n, int(b.value()) % n
        ax = list(range(n))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(v, ax)

    def moveaxis(self, v, a, b):
        n = len(v.shape)
        a, b = int(a.value()) % n, int(b.value()) % n
        ax = [k for k in range(n) if k != a]
        ax.insert(b, a)
        return self.transpose(v, ax)

    def squeeze(self, v):
        keep = [k for k in range(len(v.shape)) if not self.eq(v.shape[k], ONE)]

        def get(i):
            j, i = [ZERO] * len(v.shape), list(i)
            for k in keep:
                j[k] = i.pop(0)
            return v.get(j)
        return v if len(keep) == len(v.shape) else Arr([v.shape[k] for k in keep], get)

    def mcall(self, t):
        recv, name, args, kw = t.args
        kw = dict(kw)
        v = self(recv)
        if isinstance(v, (Lst, tuple)) and name in ('copy',):
            return v
        if isinstance(v, (Lst, tuple)):
            v = self.asarr(v)
        if isinstance(v, Opq):
            return Opq(('app', ('attr', v.key, name), tuple(self.keyof(self(x)) for x in args), tuple(sorted((k, self.keyof(self(x))) for k, x in kw.items()))))
        if name in ('conj', 'conjugate'):
            return self.map1(conj_poly, v)
        if isinstance(v, Poly):
            v = self.asarr(v)
        if not isinstance(v, Arr):
            raise Unk('method %s' % name)
        if name == 'squeeze' and not args and not kw:
            return self.squeeze(v)
        if name == 'astype':
            self.kindof(t.args[0], t.args[2][0] if t.args[2] else dict(t.args[3]).get('dtype'))
        if name in ('copy', 'astype'):
            return v
        if name == 'transpose':
            if args:
                a = self(args[0])
                ax = [int(p.value()) for p in a] if isinstance(a, tuple) else [int(self.num(x).value()) for x in args]
                return self.transpose(v, ax)
            return self.transpose(v)
        if name in ('flatten', 'ravel'):
            return self.flatten(self.ordered(v, args, kw, 0))
        if name == 'reshape':
            self.ordered(v, (), kw, 0, False)
            s = self(args[0])
            return self.reshape(v, list(s) if isinstance(s, tuple) else [self.num(x) for x in args])
        if name == 'dot':
            return self.dot(v, self.arr(args[0]))
        if name == 'swapaxes':
            return self.swapaxes(v, self.num(args[0]), self.num(args[1]))
        if name == 'sum':
            return self.sum(v, self.axis(args, kw, 0, None))
        if name == 'repeat':
            return self.np('repeat', (recv,) + args, kw, t)
        raise Unk('method %s' % name)


def F(x):
    return Fraction(x) if isinstance(x, int) else (Fraction(x) if float(x) == int(x) else Fraction(x).limit_denominator(10 ** 9))


def ogrid_hook(ev, t):
    """numpy.ogrid[a:b, c:d][k]."""
    if t.op == 'index' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.ogrid', 'numpy.mgrid'):
        its = t.args[1].args[0] if t.args[1].op == 'tuple' else (t.args[1],)
        out = []
        rs = []
        for s in its:
            if s.op != 'slice' or s.args[2] is not NONE:
                raise Unk('grid step')
            lo = ZERO if s.args[0] is NONE else ev.num(s.args[0])
            rs.append((lo, ev.num(s.args[1]) - lo))
        for k, (lo, n) in enumerate(rs):
            sh = [ONE] * len(rs) if t.args[0].args[0].endswith('ogrid') else [x[1] for x in rs]
            sh[k] = n
            out.append(Arr(sh, (lambda k, lo: lambda i: lo + i[k])(k, lo)))
        return tuple(out)
    return None


def cells(base_facts, run, limit=400):
    """run(Facts) in every case of its undecided index questions; run's result list is collected."""
    work = [list(base_facts)]
    n = 0
    while work:
        fs = work.pop()
        f = Facts(fs)
        if not f.feasible():
            continue
        n += 1
        if n > limit:
            raise Unk('too many cases')
        try:
            yield f, run(f)
        except Split as e:
            if any(isinstance(a, tuple) and a and a[0] == 'fresh' for a in atoms_deep(e.p)):
                raise Unk('case distinction on a bound position: %r' % (e.p,))
            if DEBUG: print('CELL', e.p, [q for q in fs if q not in base_facts])
            base = list(fs)
            if e.p in fs or e.p.scale(-1) - ONE in fs:
                raise Unk('no decision on %r' % (e.p,))
            work.append(base + [e.p])
            work.append(base + [e.p.scale(-1) - ONE])
