"""N10 (svd, eigh) and N11 (eig_biorthog)."""
from ..elemcheck import *
from ..report import prop
from ..numrun import floc
from ..interp import mkindex
from .. import arr as _arr

NOTE = ('Symbolic element-wise semantics of the returned factors with a symbolic number of retained values, for all arrays and tolerances. '
        'Trusts numpy.linalg/scipy.linalg factorisations (singular values non-negative and decreasing) and exact arithmetic.')


# ---- counts of leading values satisfying thresholds
class Mask(object):
    """Boolean vector: position v is true iff the conditions hold (the values are sorted, so it is a prefix)."""
    def __init__(self, n, conds):
        self.n, self.conds = n, conds


class Perm(object):
    def __init__(self, key, n):
        self.key, self.n = key, n


def cnt(facts, conds):
    """Number of leading values above every threshold."""
    conds = set(conds)
    for a in list(conds):
        for b in list(conds):
            if a is not b and a in conds and b in conds and a[0] == b[0] and a[1] != b[1] and facts.ge(a[1] - b[1]):
                conds.discard(b)
    k = ('cnt', frozenset(conds))
    p = Poly.atom(k)
    known = facts.__dict__.setdefault('cnts', {})
    if k not in known:
        known[k] = p
        facts.add(p)
        for q, pq in list(known.items()):
            if q[1] < k[1]:
                facts.add(pq - p)
            elif q[1] > k[1]:
                facts.add(p - pq)
    return p


def cntof(p):
    """The conditions of a count polynomial, None for others."""
    if len(p.d) == 1:
        (k, v), = p.d.items()
        if v == 1 and len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == 'cnt':
            return k[0][1]
    return None


class FEv(Ev):
    """Element-wise evaluation with sorted spectra, masks and counts."""
    sortedel = None     # (name of the sorted array, polynomial of |value| at an index)

    def __init__(self, inputs, facts, spect, decide=None, loops=None, hints=(), hook=None):
        Ev.__init__(self, inputs, facts, decide, loops, hints, hook)
        self.spect = spect      # names of arrays whose |values| are decreasing

    def with_env(self, var, val):
        raise Unk('loop')

    def absp(self, p):
        r = Ev.absp(self, p)
        if len(p.d) == 1:
            (k, v), = p.d.items()
            if len(k) == 1 and v == 1 and isinstance(k[0], tuple) and k[0][0] == 'el' and k[0][1] == 'S':
                return p
            if k == ():
                return r
        return r

    def ev(self, t):
        if t.op == 'cmp' and t.args[0] == '<' or t.op == 'not' and t.args[0].op == 'cmp' and t.args[0].args[0] == '<':
            neg = t.op == 'not'
            q = t.args[0] if neg else t
            a, b = self(q.args[1]), self(q.args[2])
            if neg:
                a, b = b, a
            m = self.mask(a, b, 'ge' if neg else 'gt')
            if m is not None:
                return m
        if t.op == 'bin' and t.args[0] == '&' or t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.logical_and',):
            x, y = (self(t.args[1]), self(t.args[2])) if t.op == 'bin' else [self(z) for z in t.args[1]]
            if isinstance(x, Mask) and isinstance(y, Mask):
                return Mask(x.n, x.conds | y.conds)
        if t.op == 'mcall':
            v = self(t.args[0])
            if isinstance(v, Mask) and t.args[1] == 'sum' and not t.args[2]:
                return cnt(self.facts, v.conds)
            if isinstance(v, Mask) and t.args[1] == 'nonzero':
                return (Arr([cnt(self.facts, v.conds)], lambda i: i[0]),)
            if isinstance(v, Arr) and t.args[1] in ('min', 'max') and not t.args[2]:
                return Poly.atom(('app', t.args[1], (self.keyof(v),)))
            if isinstance(v, Arr) and t.args[1] == 'argsort' and not t.args[2]:
                return self.argsort(v)
        if t.op == 'call' and t.args[0].op == 'ext':
            n = t.args[0].args[0]
            if n in ('numpy.sum', 'numpy.count_nonzero', 'builtins.sum') and len(t.args[1]) == 1:
                v = self(t.args[1][0])
                if isinstance(v, Mask):
                    return cnt(self.facts, v.conds)
            if n in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero') and len(t.args[1]) == 1:
                v = self(t.args[1][0])
                if isinstance(v, Mask):
                    x = Arr([cnt(self.facts, v.conds)], lambda i: i[0])
                    return x if n == 'numpy.flatnonzero' else (x,)
            if n in ('builtins.min', 'numpy.minimum', 'builtins.max', 'numpy.maximum') and len(t.args[1]) == 2:
                a, b = self.num(t.args[1][0]), self.num(t.args[1][1])
                ca, cb = cntof(a), cntof(b)
                if ca is not None and cb is not None:
                    if n.endswith(('min', 'minimum')):
                        return cnt(self.facts, ca | cb)
                    if ca <= cb:
                        return a
                    if cb <= ca:
                        return b
                    return Poly.atom(('app', 'maxcnt', (a, b)))
                less = self.ge(b - a)
                return (a if less else b) if n.endswith(('min', 'minimum')) else (b if less else a)
            if n in ('numpy.min', 'numpy.amin', 'builtins.min', 'numpy.max', 'numpy.amax', 'builtins.max') and len(t.args[1]) == 1 and not t.args[2]:
                v = self.arr(t.args[1][0])
                return Poly.atom(('app', n[-3:], (self.keyof(v),)))
            if n == 'numpy.argsort' and len(t.args[1]) == 1 and not t.args[2]:
                return self.argsort(self.arr(t.args[1][0]))
            if n == 'numpy.flip' and len(t.args[1]) == 1:
                v = self(t.args[1][0])
                if isinstance(v, Perm):
                    return Perm(rev(v.key), v.n)
            if n == 'numpy.diag' and len(t.args[1]) == 1:
                v = self.arr(t.args[1][0])
                if len(v.shape) == 2:
                    return Arr([v.shape[0]], lambda i: v.get([i[0], i[0]]))
        return Ev.ev(self, t)

    def argsort(self, v):
        e = v.get([Poly.atom('@')])
        if len(v.shape) != 1:
            raise Unk('argsort')
        sign = 1
        if len(e.d) == 1:
            (k, c), = e.d.items()
            if c < 0:
                sign, e = -1, e.scale(-1)
        base = elem('w', [Poly.atom('@')], 'R')
        if e == self.absp(base):
            key = ('abs', 'asc')
        elif e == base:
            key = ('val', 'asc')
        else:
            raise Unk('argsort of %r' % (e,))
        return Perm(key if sign > 0 else rev(key), v.shape[0])

    def mask(self, a, b, kind):
        """b > a (or >=): an elementwise comparison of a sorted spectrum."""
        arrs = [x for x in (a, b) if isinstance(x, Arr) and len(x.shape) == 1]
        if not arrs:
            return None
        n = arrs[0].shape[0]
        v = Poly.atom('@')

        def at(x):
            return x.get([v]) if isinstance(x, Arr) and len(x.shape) == 1 else (x.get([]) if isinstance(x, Arr) else x)
        pa, pb = at(a), at(b)
        if not isinstance(pa, Poly) or not isinstance(pb, Poly):
            raise Unk('comparison')
        d = pb - pa
        X = None
        for nm in self.spect:
            el = elem(nm, [v], 'R')
            for f in (self.absp(el), el):
                (k, _), = f.d.items()
                if k[0] in d.atoms():
                    X = (k[0], nm, f is el or f == el)
        if X is None:
            raise Unk('comparison %r' % (d,))
        atom, nm, signed = X
        pq = d.coeff(atom)
        if pq is None:
            raise Unk('comparison %r' % (d,))
        al, rest = pq
        if '@' in atoms_deep(al) or '@' in atoms_deep(rest):
            raise Unk('comparison %r' % (d,))
        if signed and nm != 'S':
            kind = kind + '-signed'
        if any(x < 0 for x in al.d.values()):
            kind = 'below-' + kind
        T_ = mulp(rest.scale(-1), recip(al))
        base = cntof(n)
        if base is None:
            raise Unk('comparison of an array of length %r' % (n,))
        return Mask(n, frozenset(base | {(kind, T_)}))

    def getitem(self, v, idx):
        out = []
        for x in idx:
            if isinstance(x, Mask):
                out.append(Slice(None, cnt(self.facts, x.conds), None))
            elif isinstance(x, Perm):
                out.append(x)
            else:
                out.append(x)
        ps = [k for k, x in enumerate(out) if isinstance(x, Perm)]
        if ps:
            if len(ps) != 1 or any(not (isinstance(x, Slice) and x.a is None and x.b is None and x.s is None) for k, x in enumerate(out) if k != ps[0]):
                raise Unk('permutation index')
            ax, pm = ps[0], out[ps[0]]
            tag = {('abs', 'desc'): '', ('abs', 'asc'): 'abs-asc', ('val', 'desc'): 'val-desc', ('val', 'asc'): 'val-asc'}[pm.key]

            def get(i):
                e = v.get(i)
                m = {}
                for a in e.atoms():
                    if isinstance(a, tuple) and a[0] == 'el' and a[1] == 'vec' and ax == 0:
                        m[a] = Poly.atom(('el', 'Zrows') + a[2:])
                    elif isinstance(a, tuple) and a[0] == 'el' and a[1] in ('w', 'vec'):
                        m[a] = Poly.atom(('el', {'w': 'E', 'vec': 'Z'}[a[1]] + tag) + a[2:])
                    else:
                        raise Unk('permuted %r' % (a,))
                return subst_poly(e, m)
            return Arr(v.shape, get)
        return Ev.getitem(self, v, out)

    def index(self, v, i, t=None):
        if isinstance(v, Perm):
            if isinstance(i, Slice) and i.a is None and i.b is None and i.s is not None and i.s == K(-1):
                return Perm(rev(v.key), v.n)
            if isinstance(i, Slice) and (i.a is None or i.a == ZERO) and i.b is None and i.s is None:
                return v
            raise Unk('index of a permutation')
        return Ev.index(self, v, i, t)


def rev(k):
    return (k[0], 'desc' if k[1] == 'asc' else 'asc')


def tolcells():
    for a in (True, False):
        for r in (True, False):
            yield a, r


def tolterm(name, how):
    return sym(name) if how is True else const(0.0) if how == 'zero' else NONE


def decider(pd=None):
    def d(t):
        if t is sym('atol') or t is sym('rtol'):
            return True             # a given tolerance; zero is a case of its own
        if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and t.args[1].op == 'sym':
            return False
        if t is sym('is_positive_definite'):
            return pd
        return None
    return d


def usesparam(t, name):
    return any(x is sym(name) for x in walk(t))


@prop('N10', 'element-wise semantics of the truncated factors; the number of retained values as a normal form of thresholds on the sorted spectrum', NOTE)
def n10(c):
    c.rule('truncation', 'exactly the leading values above every given tolerance are kept, with their vectors')
    for at, rt in tolcells():
        c.ob('svd atol=%s rtol=%s' % (at, rt), svd, c, at, rt)
    for at, rt in (('zero', False), (False, 'zero'), ('zero', True), (True, 'zero')):
        c.ob('svd atol=%s rtol=%s' % (at, rt), svd, c, at, rt)
        c.ob('eigh atol=%s rtol=%s positive=False' % (at, rt), eigh, c, at, rt, False)
    for at, rt in tolcells():
        for pd in (False, True):
            c.ob('eigh atol=%s rtol=%s positive=%s' % (at, rt, pd), eigh, c, at, rt, pd)


def argt(t, pos, *names):
    kw = dict(t.args[2])
    if len(t.args[1]) > pos:
        return t.args[1][pos]
    for n in names:
        if n in kw:
            return kw[n]
    return None


def svd(c, at, rt):
    pkg = package('nompi')
    f = pkg.func('util.svd')
    if f is None:
        raise Undecided('not found')
    r = Run(pkg, decider())
    v = r.deep(r.call('util.svd', [sym('array')], [('atol', tolterm('atol', at)), ('rtol', tolterm('rtol', rt))]))
    if not r.st.alive:
        raise Undecided('always raises')
    m, n = Poly.atom('m'), Poly.atom('n')

    def hook(ev, t):
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.linalg.svd', 'scipy.linalg.svd'):
            x = t.args[1][0]
            a = ev.arr(x)
            if a.tag != 'array':
                raise Unk('factorises %s' % show(x, 4))
            k = cnt(ev.facts, ())
            full = argt(t, 1, 'full_matrices')
            if full not in (FALSE, const(0), None, TRUE, const(1)):
                raise Unk('full_matrices')
            fm = full not in (FALSE, const(0))
            for b in (m, n):
                ev.facts.add(b - k)
            return (Inp('U', 2, dims=[m, m if fm else k]), Inp('S', 1, real=True, dims=[k]), Inp('Vh', 2, dims=[n if fm else k, n]))
        return None

    def ev(fx):
        return FEv({sym('array'): Inp('array', 2, dims=[m, n]), sym('atol'): Poly.atom('atol'), sym('rtol'): Poly.atom('rtol')}, fx, ['S'], decide=decider(), hook=hook)
    i, j = ivar('i'), ivar('j')

    def K_(e):
        cs = set()
        if at:
            cs.add(('gt', ZERO if at == 'zero' else Poly.atom('atol')))
        if rt:
            cs.add(('gt', ZERO if rt == 'zero' else mulp(Poly.atom('rtol'), elem('S', [ZERO], 'R'))))
        return cnt(e.facts, cs)
    names = {'U', 'S', 'Vh', 'atol', 'rtol', 'm', 'n'}
    tag = 'svd'
    for pos, shape, ix, spec, what in (
            (0, lambda e: [m, K_(e)], [i, j], lambda e, x: elem('U', [i, j]), 'U'),
            (1, lambda e: [K_(e)], [j], lambda e, x: elem('S', [j], 'R'), 'the singular values'),
            (2, lambda e: [n, K_(e)], [i, j], lambda e, x: elem('Vh', [j, i], 'C'), 'V')):
        factor_compare(c, '%s %s atol=%s rtol=%s' % (tag, what, at, rt), tag, floc(f), ev, mkindex(v, const(pos)), shape, ix, spec, names, what, j, i)


def factor_compare(c, name, construct, loc, make_ev, term, shape, index, spec, names, what, j, i, extra=()):
    def go():
        try:
            for fx, (kind, msg) in cells([i, j, Poly.atom('m') - i - ONE, Poly.atom('n') - i - ONE] + list(extra), one):
                if kind == 'bad':
                    c.violate('truncation', construct, loc, '%s: %s' % (name, msg))
                    return False
        except Unk as e:
            raise Undecided('%s: %s' % (name, e))

    def one(fx):
        e = make_ev(fx)
        v = e.asarr(e(term))
        sh = shape(e)
        if len(v.shape) != len(sh):
            return 'bad', '%s has %d dimensions' % (what, len(v.shape))
        for k, (a, b) in enumerate(zip(v.shape, sh)):
            if a != b and fx.eq(a, b) is not True:
                fo = foreign2(a, names)
                if fo is not None:
                    raise Unk('extent uses %r' % (fo,))
                return 'bad', 'extent %d of %s is %s instead of %s' % (k, what, showcnt(a), showcnt(b))
        x = v.get(list(index))
        s = spec(e, index)
        if equal(fx, x, s):
            return 'ok', ''
        fo = foreign2(x, names)
        if fo is not None:
            raise Unk('value uses %r' % (fo,))
        return 'bad', 'element of %s is %r instead of %r' % (what, x, s)
    c.ob(name, go)


def foreign2(p, names):
    for x in atoms_deep(p):
        if isinstance(x, tuple) and x[0] == 'cnt':
            for k, t in x[1]:
                fo = foreign2(t, names)
                if fo is not None:
                    return fo
            continue
        if isinstance(x, tuple) and x[0] == 'app' and x[1] in ('min', 'max', 'maxcnt'):
            continue
        if isinstance(x, T):
            return x
        if isinstance(x, tuple) and x[0] == 'el' and x[1] not in names:
            return x
        if isinstance(x, tuple) and x[0] in ('obj', 'uninit', '//'):
            return x
    return None


def showcnt(p):
    k = cntof(p)
    if k is None:
        return repr(p)
    return 'the number of values with ' + (' and '.join('value %s %r' % ({'gt': '>', 'ge': '>='}.get(a, a), b) for a, b in k) or 'no condition')


def eigh(c, at, rt, pd):
    pkg = package('nompi')
    f = pkg.func('util.eigh')
    if f is None:
        raise Undecided('not found')
    r = Run(pkg, decider(pd))
    v = r.deep(r.call('util.eigh', [sym('array')], [('atol', tolterm('atol', at)), ('rtol', tolterm('rtol', rt)), ('is_positive_definite', const(pd))]))
    if not r.st.alive:
        raise Undecided('always raises')
    n = Poly.atom('n')

    def hook(ev, t):
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.linalg.eigh', 'scipy.linalg.eigh'):
            if len(t.args[1]) != 1 or t.args[2]:
                raise Unk('arguments of eigh')
            if ev.arr(t.args[1][0]).tag != 'array':
                raise Unk('factorises %s' % show(t.args[1][0], 4))
            k = cnt(ev.facts, ())
            ev.facts.add_eq(n - k)
            return (Inp('w', 1, real=True, dims=[k]), Inp('vec', 2, dims=[n, k]))
        return None

    def ev(fx):
        return FEv({sym('array'): Inp('array', 2, dims=[n, n]), sym('atol'): Poly.atom('atol'), sym('rtol'): Poly.atom('rtol')}, fx,
                   ['E', 'Eabs-asc', 'Eval-desc', 'Eval-asc', 'w'], decide=decider(pd), hook=hook)
    i, j = ivar('i'), ivar('j')
    rid = ('arr', (cnt(Facts(), ()),), elem('E', [Poly.atom(('bv', 100))], 'R'))
    mn = Poly.atom(('app', 'min', (rid,)))

    def K_(e):
        cs = set()
        X0 = e.absp(elem('E', [ZERO], 'R'))
        if at:
            cs.add(('gt', ZERO if at == 'zero' else Poly.atom('atol')))
        if pd and e.lt(mn, ZERO):
            a = e.absp(mn)
            cs.add(('gt', a))
            if at:
                e.ge(a - Poly.atom('atol') - ONE)
        if rt:
            cs.add(('gt', ZERO if rt == 'zero' else mulp(Poly.atom('rtol'), X0)))
        return cnt(e.facts, cs)
    names = {'E', 'Z', 'Eabs-asc', 'Zabs-asc', 'Eval-desc', 'Zval-desc', 'Eval-asc', 'Zval-asc', 'Zrows', 'w', 'vec', 'atol', 'rtol', 'm', 'n'}
    for pos, shape, ix, spec, what in (
            (0, lambda e: [K_(e)], [j], lambda e, x: elem('E', [j], 'R'), 'the eigenvalues'),
            (1, lambda e: [n, K_(e)], [i, j], lambda e, x: elem('Z', [i, j]), 'the eigenvectors')):
        factor_compare(c, 'eigh %s atol=%s rtol=%s positive=%s' % (what, at, rt, pd), 'eigh', floc(f), ev, mkindex(v, const(pos)), shape, ix, spec, names, what, j, i)


# ------------------------------------------------------------------ N11
@prop('N11', 'element-wise semantics of the returned eigenvectors for either scaling; path analysis of the rejected choices', NOTE)
def n11(c):
    c.rule('definition', 'only the requested side is divided by the diagonal of L^H R (conjugated on the left side)')
    c.rule('rejects', 'other scaling choices raise')
    for ch in (None, 'left', 'right', 'LEFT', 'Right'):
        c.ob('eig_biorthog %s' % ch, biorthog, c, ch)
    c.ob('eig_biorthog other', biorthog_raises, c)


def biorthog_run(ch):
    pkg = package('nompi')
    f = pkg.func('util.eig_biorthog')
    if f is None:
        raise Undecided('not found')
    r = Run(pkg)
    v = r.deep(r.call('util.eig_biorthog', [sym('array')], [('scale_choice', const(ch))] if ch is not None else []))
    return r, f, v


def biorthog(c, ch):
    r, f, v = biorthog_run(ch)
    if not r.st.alive:
        c.violate('rejects', 'eig_biorthog', floc(f), 'the documented scaling choice %r is rejected' % ch)
        return False
    n = Poly.atom('n')
    left = ch is None or ch.lower() == 'left'

    def hook(ev, t):
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'scipy.linalg.eig':
            if ev.arr(t.args[1][0]).tag != 'array':
                raise Unk('decomposes %s' % show(t.args[1][0], 4))
            kw = dict(t.args[2])
            if kw.get('left') is TRUE and kw.get('right', TRUE) is TRUE and len(t.args[1]) == 1 and set(kw) <= {'left', 'right', 'overwrite_a', 'check_finite'}:
                return (Inp('w', 1, dims=[n]), Inp('L', 2, dims=[n, n]), Inp('R', 2, dims=[n, n]))
            raise Unk('arguments of eig')
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'numpy.einsum' and len(t.args[1]) == 3 and t.args[1][0] is const('ij,ij->j'):
            return ev.sum(ev.bcast(ev.arr(t.args[1][1]), ev.arr(t.args[1][2]), mulp), 0)
        return None

    def ev(fx):
        return FEv({sym('array'): Inp('array', 2, dims=[n, n])}, fx, [], hook=hook)
    i, j = ivar('i'), ivar('j')
    k = Poly.atom('z')
    s = mksum('z', n, elem('L', [k, j], 'C') * elem('R', [k, j]))
    names = {'w', 'L', 'R', 'n'}
    specR = elem('R', [i, j]) if left else mulp(elem('R', [i, j]), recip(s))
    specL = mulp(elem('L', [i, j]), recip(conj_poly(s))) if left else elem('L', [i, j])
    facts = rng(i, n) + rng(j, n)
    for pos, sh, ix, sp, what in ((0, [n], [j], elem('w', [j]), 'the eigenvalues'), (1, [n, n], [i, j], specR, 'the right eigenvectors'),
                                  (2, [n, n], [i, j], specL, 'the left eigenvectors')):
        compare_arr(c, 'eig_biorthog(%s) %s' % (ch, what), 'eig_biorthog', floc(f), ev, mkindex(v, const(pos)), sh, ix, lambda e, x: sp, names, what, facts)


def biorthog_raises(c):
    for ch in ('center', '', 'l', 'none'):
        r, f, v = biorthog_run(ch)
        if r.st.alive:
            if v.op == 'phi':
                raise Undecided('%r' % ch)
            c.violate('rejects', 'eig_biorthog', floc(f), 'scaling choice %r is accepted' % ch)
            return False
