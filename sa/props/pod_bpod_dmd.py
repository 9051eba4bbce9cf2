"""N01-N05: the decompositions equal their definitions (algebraic normal forms)."""
from ..numrun import *
from ..report import prop
from ..poly import poly, Poly, NotPoly

NOTE = ('Equality of algebraic normal forms in every cell of the input partition (weights none/1-D/2-D, advanced vectors given or not, '
        'truncation given or not), for all dimensions and all real or complex data; exact arithmetic, tolerances ignored. '
        'Trusts the contracts of util.svd/eigh/eig_biorthog and of the vector-space operations, which N10, N11, N06, P07-P09 decide.')


def half(A, ev, p):
    return A.diag(A.powv(ev, Fraction(p).limit_denominator(4)))


class Spec(object):
    pass


def spec_pod(A, X, W, mi):
    s = Spec()
    K = A.prod(A.H(X), W, X)
    ev, E = A.eigh(K)
    s.correlation_array, s.eigvals, s.eigvecs = K, ev, E
    s.coeffs = A.prod(E, half(A, ev, -0.5))
    s.modes = A.prod(X, s.coeffs, A.sel(mi))
    s.proj_coeffs = A.prod(half(A, ev, 0.5), A.H(E))
    return s


MI = ('idx', 'mode_indices')
WD = (None, 1, 2)


def pod_cells():
    for wd in WD:
        for none in ((), ('mode_indices',)):
            yield Cfg(none=none, wdim=wd)


def check_record(c, qual, cfg, r, f, A, cv, s, names, rule='definition', only=None):
    fs = fields(r, r.value)
    for n in names:
        if n not in fs:
            c.violate('missing-field', '%s.%s' % (qual, n), floc(f), 'result has no field %s' % n)
            continue
        compare(c, '%s field %s [%s]' % (qual, n, cfg), '%s.%s' % (qual, n), floc(f), A, cv, fs[n], getattr(s, n), 'the defined ' + n, rule)
    c.note('functions x cases')


def lin_combines(r):
    return [e for e in r.events if e.kind == 'prim' and e.d['qual'] == LCQ]


def check_lincomb(c, name, construct, loc, A, cv, ev, basis, coeffs, out, mi=sym('mode_indices'), rule='definition'):
    """A lin_combine call: sum handles, basis, coefficients and selected columns."""
    d = dict(ev.d['args'])
    ks = [k for k in d if k != 'self']
    o, b, k, m = [d[x] for x in ks[:4]]

    def go():
        try:
            bv, kv = cv.mat(b), cv.mat(k)
        except Unknown as e:
            raise Undecided('%s: %s' % (name, e))
        sel = A.sel(cv.idx(m, A.coldim(kv))) if m is not NONE else A.ident()
        want = A.sel(cv.idx(mi, None)) if mi is not NONE else A.ident()
        got = A.prod(bv, kv, sel)
        exp = A.prod(basis, coeffs, want)
        if o is not out:
            c.violate('output-handles', construct, ev.loc, '%s: modes are put to %s instead of %s' % (name, show(o, 4), show(out, 4)))
            return False
        if got.key() != exp.key():
            c.violate(rule, construct, ev.loc, '%s: modes are %r, required %r' % (name, got, exp))
            return False
    c.ob(name, go)


def new_handles(cls, cfg):
    r = Run(hpkg(), assume=cfg.assume, prims=PRIMS)
    o = r.new(cls, [], [('inner_product', sym('inner_product'))])
    return r, o


def one_lc(c, r, n0, name, construct, loc):
    ls = [e for e in lin_combines(r) if e.seq >= n0]
    if len(ls) != 1:
        if not ls:
            c.violate('definition', construct, loc, '%s never combines the vectors' % name)
        else:
            c.undecided(name, '%d lin_combine calls' % len(ls))
        return None
    return ls[0]


def mlocs(r, o, name):
    w, _ = r.an.objcls[o.args[0]].lookup(name)
    return floc(w.args[0])


@prop('N01', 'value-numbering of the computed arrays into a linear-algebra normal form, compared with the definition of POD', NOTE)
def n01(c):
    c.rule('definition', 'normal form of the computed quantity = normal form of its definition')
    for qual in ('pod.compute_POD_arrays_snaps_method', 'pod.compute_POD_arrays_direct_method'):
        for cfg in pod_cells():
            c.ob('%s [%s]' % (qual, cfg), pod_arrays, c, qual, cfg)
    c.ob('PODHandles', pod_handles, c)


def pod_arrays(c, qual, cfg):
    r, f = run_arrays(qual, cfg)
    A, inputs, W = algebra(cfg, ['vecs'])
    cv = conv(A, inputs, cfg)
    s = spec_pod(A, A.inp('vecs'), W, None if 'mode_indices' in cfg.none else MI)
    names = ['eigvals', 'modes', 'proj_coeffs', 'eigvecs'] + (['correlation_array'] if 'snaps' in qual else [])
    check_record(c, qual, cfg, r, f, A, cv, s, names)


def handle_algebra(cfg, names):
    A = Algebra(hermitian=['W'])
    if 'adv_vec_handles' in names:
        A.samedim[('cols', 'adv_vec_handles')] = ('cols', 'vec_handles')
    inputs = {sym(n): A.inp(n) for n in names}
    W = A.inp('W')
    cv = conv(A, inputs, cfg, W, handles=True)
    return A, cv, W


def pod_handles(c):
    for other in (False, True):
        for nomi in (False, True):
            cfg = Cfg()
            r, o = new_handles('pod.PODHandles', cfg)
            A, cv, W = handle_algebra(cfg, ['vec_handles', 'other_handles'])
            X = A.inp('vec_handles')
            s = spec_pod(A, X, W, None)
            res = r.deep(r.method(o, 'compute_decomp'))
            tag = 'PODHandles.compute_decomp'
            loc = mlocs(r, o, 'compute_decomp')
            for i, n in enumerate(('eigvals', 'eigvecs')):
                compare(c, '%s result %d' % (tag, i), tag, loc, A, cv, mkindex(res, const(i)), getattr(s, n), n)
            for n in ('correlation_array', 'eigvals', 'eigvecs'):
                compare(c, '%s attribute %s' % (tag, n), tag, loc, A, cv, r.attr(o, n), getattr(s, n), n)
            pc = r.deep(r.method(o, 'compute_proj_coeffs'))
            compare(c, 'PODHandles.compute_proj_coeffs result', 'PODHandles.compute_proj_coeffs', mlocs(r, o, 'compute_proj_coeffs'), A, cv, pc, s.proj_coeffs, 'proj_coeffs')
            compare(c, 'PODHandles.proj_coeffs', 'PODHandles.compute_proj_coeffs', mlocs(r, o, 'compute_proj_coeffs'), A, cv, r.attr(o, 'proj_coeffs'), s.proj_coeffs, 'proj_coeffs')
            n0 = len(r.events)
            mi = NONE if nomi else sym('mode_indices')
            r.method(o, 'compute_modes', [mi, sym('mode_handles')], [('vec_handles', sym('other_handles'))] if other else [])
            tag = 'PODHandles.compute_modes'
            loc = mlocs(r, o, 'compute_modes')
            lc = one_lc(c, r, n0, tag, tag, loc)
            if lc is not None:
                check_lincomb(c, '%s%s%s' % (tag, ' (vectors given)' if other else '', ' (all modes)' if nomi else ''), tag, loc, A, cv, lc,
                              A.inp('other_handles') if other else X, s.coeffs, sym('mode_handles'), mi)
            c.note('functions x cases', 3)


# ---------------------------------------------------------------- BPOD
class Mismatch(Exception):
    pass


def hankel_hook(A, cv, X, Y, W, hname=('in', 'Hankel')):
    """Conversion of the Hankel array: the chunk lists must be the blocks of the two inner product arrays."""
    m, p = sym('num_inputs'), sym('num_outputs')

    def chunks(t, rows, want, what):
        if t.op != 'comp':
            raise Unknown('chunk list is not a comprehension')
        lv = mk('lv', t.args[0], t.args[1])
        elt = t.args[2]
        if t.args[3]:
            raise Unknown('filtered chunk list')
        full = mk('slice', NONE, NONE, NONE)
        base, sl = elt, [full, full]
        if elt.op != 'index':
            raise Unknown('chunk %s' % show(elt, 4))
        base, i = elt.args
        if i.op == 'tuple':
            sl = list(i.args[0])
        else:
            sl = [i, full]
        v = cv.mat(base)
        if v.key() != want.key():
            raise Mismatch('%s chunks are cut from %r, required %r' % (what, v, want))
        k, o = (0, 1) if rows else (1, 0)
        n = p if rows else m
        if sl[k].op != 'slice' or sl[k].args[2] is not NONE or sl[k].args[0] is NONE or sl[k].args[1] is NONE:
            raise Unknown('chunk slice %s' % show(sl[k], 4))
        try:
            lo, hi = poly(sl[k].args[0]), poly(sl[k].args[1])
        except NotPoly as e:
            raise Unknown(str(e))
        if lo != Poly.atom(lv) * Poly.atom(n) or hi - lo != Poly.atom(n):
            raise Mismatch('%s chunk i is taken from %s to %s' % (what, show(sl[k].args[0], 6), show(sl[k].args[1], 6)))
        oth = m if rows else p
        if not is_full(sl[o]) and not (sl[o].op == 'slice' and sl[o].args[0] in (NONE, const(0)) and sl[o].args[1] is oth and sl[o].args[2] is NONE):
            raise Unknown('other slice')
        cnt = t.args[1]
        if cnt.op == 'bin' and cnt.args[0] == '//' and cnt.args[2] is n:
            d = cv.dimof(cnt.args[1])
            wd = A.coldim(A.tr(Y) if False else A.H(A.H(Y))) if rows else A.coldim(X)
            if d is not None and wd is not None and d != wd:
                raise Mismatch('number of %s chunks counts %s' % (what, d))
        elif cnt.op == 'bin' and cnt.args[0] == '//' and cnt.args[2] in (m, p):
            raise Mismatch('number of %s chunks is %s' % (what, show(cnt, 4)))

    def hook(t):
        d = dict(t.args[1])
        ks = list(d)
        f, l = d[ks[0]], d.get(ks[1]) if len(ks) > 1 else NONE
        if l is None or l is NONE:
            raise Mismatch('the last row of chunks is not given')
        chunks(f, True, A.prod(A.H(Y), W, X, A.sel(':num_inputs')), 'first-column')
        chunks(l, False, A.prod(A.tr(A.sel('-num_outputs:')), A.H(Y), W, X), 'last-row')
        return A.atom(hname)
    return hook


def bpod_spec(A, H, X, Y):
    s = Spec()
    U, S, V = A.svd(H)
    s.sing_vals, s.L_sing_vecs, s.R_sing_vecs, s.Hankel_array = S, U, V, H
    s.cd, s.ca = A.prod(V, half(A, S, -0.5)), A.prod(U, half(A, S, -0.5))
    s.direct_modes = A.prod(X, s.cd, A.sel(('idx', 'direct_mode_indices')))
    s.adjoint_modes = A.prod(Y, s.ca, A.sel(('idx', 'adjoint_mode_indices')))
    s.direct_proj_coeffs = A.prod(half(A, S, 0.5), A.H(V))
    s.adjoint_proj_coeffs = A.prod(half(A, S, 0.5), A.H(U))
    return s


def bpod_conv(A, cv, X, Y, W):
    old = cv.hook
    st = {}

    def hook(c2, t):
        if t.op == 'prim' and t.args[0] == 'util.Hankel_chunks':
            return hankel_hook(A, cv, X, Y, W)(t)
        return old(c2, t) if old else None
    cv.hook = hook
    return cv


def bpod_record(c, name, construct, loc, A, cv, term, s, n, H):
    def go():
        try:
            v = cv(term)
        except Mismatch as e:
            c.violate('hankel', construct, loc, '%s: %s' % (name, e))
            return False
        except Unknown as e:
            raise Undecided('%s: %s' % (name, e))
        if not same(A, v, getattr(s, n)):
            c.violate('definition', construct, loc, '%s is not the defined %s: computed %r, required %r' % (name, n, v, getattr(s, n)))
            return False
    c.ob(name, go)


def bpod_hankel(r, cv, A, X, Y, W, term):
    """The factorised array: the Hankel atom, or the inner products themselves."""
    v = cv(term)
    full = A.prod(A.H(Y), W, X)
    if v.key() == full.key() or v.key() == A.atom(('in', 'Hankel')).key():
        return v
    raise Mismatch('the Hankel array is %r' % v)


@prop('N02', 'value-numbering of the computed arrays into a linear-algebra normal form plus affine block bookkeeping, compared with the definition of BPOD', NOTE)
def n02(c):
    c.rule('definition', 'normal form of the computed quantity = normal form of its definition')
    c.rule('hankel', 'the factorised array is the block Hankel array of adjoint-direct inner products')
    for wd in WD:
        for mi in (True, False):
            cfg = Cfg(none=() if mi else ('direct_mode_indices', 'adjoint_mode_indices'), wdim=wd)
            c.ob('arrays [%s]' % cfg, bpod_arrays, c, cfg)
    c.ob('BPODHandles', bpod_handles, c)


def bpod_arrays(c, cfg):
    qual = 'bpod.compute_BPOD_arrays'
    r, f = run_arrays(qual, cfg)
    A, inputs, W = algebra(cfg, ['direct_vecs', 'adjoint_vecs'])
    cv = conv(A, inputs, cfg)
    X, Y = A.inp('direct_vecs'), A.inp('adjoint_vecs')
    bpod_conv(A, cv, X, Y, W)
    fs = fields(r, r.value)
    try:
        H = bpod_hankel(r, cv, A, X, Y, W, fs['Hankel_array'])
    except Mismatch as e:
        c.violate('hankel', qual + '.Hankel_array', floc(f), str(e))
        return False
    except Unknown as e:
        raise Undecided(str(e))
    s = bpod_spec(A, H, X, Y)
    if 'direct_mode_indices' in cfg.none:
        s.direct_modes, s.adjoint_modes = A.prod(X, s.cd), A.prod(Y, s.ca)
    for n in ('Hankel_array', 'sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'direct_modes', 'adjoint_modes', 'direct_proj_coeffs', 'adjoint_proj_coeffs'):
        if n not in fs:
            c.violate('missing-field', '%s.%s' % (qual, n), floc(f), 'result has no field %s' % n)
            continue
        bpod_record(c, '%s field %s [%s]' % (qual, n, cfg), '%s.%s' % (qual, n), floc(f), A, cv, fs[n], s, n, H)
    c.note('functions x cases')


def bpod_handles(c):
    cfg = Cfg()
    for other in (False, True):
        r, o = new_handles('bpod.BPODHandles', cfg)
        A, cv, W = handle_algebra(cfg, ['direct_vec_handles', 'adjoint_vec_handles', 'other_handles'])
        X, Y = A.inp('direct_vec_handles'), A.inp('adjoint_vec_handles')
        bpod_conv(A, cv, X, Y, W)
        res = r.deep(r.method(o, 'compute_decomp'))
        loc = mlocs(r, o, 'compute_decomp')
        tag = 'BPODHandles.compute_decomp'
        try:
            H = bpod_hankel(r, cv, A, X, Y, W, r.attr(o, 'Hankel_array'))
        except Mismatch as e:
            c.violate('hankel', tag, loc, str(e))
            return False
        except Unknown as e:
            raise Undecided(str(e))
        s = bpod_spec(A, H, X, Y)
        for i, n in enumerate(('sing_vals', 'L_sing_vecs', 'R_sing_vecs')):
            bpod_record(c, '%s result %d' % (tag, i), tag, loc, A, cv, mkindex(res, const(i)), s, n, H)
        for n in ('Hankel_array', 'sing_vals', 'L_sing_vecs', 'R_sing_vecs'):
            bpod_record(c, '%s attribute %s' % (tag, n), tag, loc, A, cv, r.attr(o, n), s, n, H)
        for kind, V, co in (('direct', X, s.cd), ('adjoint', Y, s.ca)):
            t2 = 'BPODHandles.compute_%s_proj_coeffs' % kind
            n = '%s_proj_coeffs' % kind
            pc = r.deep(r.method(o, 'compute_%s_proj_coeffs' % kind))
            l2 = mlocs(r, o, 'compute_%s_proj_coeffs' % kind)
            bpod_record(c, t2 + ' result', t2, l2, A, cv, pc, s, n, H)
            bpod_record(c, t2 + ' attribute', t2, l2, A, cv, r.attr(o, n), s, n, H)
            mt = 'compute_%s_modes' % kind
            t2 = 'BPODHandles.' + mt
            l2 = mlocs(r, o, mt)
            n0 = len(r.events)
            r.method(o, mt, [sym('mode_indices'), sym('mode_handles')], [('%s_vec_handles' % kind, sym('other_handles'))] if other else [])
            lc = one_lc(c, r, n0, t2, t2, l2)
            if lc is not None:
                check_lincomb(c, t2 + (' (vectors given)' if other else ''), t2, l2, A, cv, lc, A.inp('other_handles') if other else V, co, sym('mode_handles'))
        c.note('functions x cases', 5)


# ---------------------------------------------------------------- DMD
def spec_dmd(A, Xs, Xa, W, cfg, mi, P=None):
    """DMD of Xs -> Xa (already projected when P is given)."""
    s = Spec()
    K = A.prod(A.H(Xs), W, Xs)
    Kx = A.prod(A.H(Xs), W, Xa)
    ev, E = A.eigh(K)
    if cfg.trunc == 'smaller':
        E = A.mul(E, A.sel(':max_num_eigvals'))
        ev = A.selv(ev, ':max_num_eigvals')
    Dm = half(A, ev, -0.5)
    M = A.prod(Dm, A.H(E), Kx, E, Dm)
    lam, R, L = A.biorthog(M, 'left')
    s.correlation_array, s.cross_correlation_array = K, Kx
    s.correlation_array_eigvals, s.correlation_array_eigvecs = ev, E
    s.proj_correlation_array_eigvals, s.proj_correlation_array_eigvecs = ev, E
    s.proj_correlation_array = K
    s.low_order_linear_map = M
    s.eigvals, s.R_low_order_eigvecs, s.L_low_order_eigvecs = lam, R, L
    s.c_proj = A.prod(E, Dm, R)
    s.c_exact = A.prod(s.c_proj, A.diag(A.powv(lam, Fraction(-1))))
    s.c_adj = A.prod(E, Dm, L)
    sel = A.sel(mi)
    s.proj_modes = A.prod(Xs, s.c_proj, sel)
    s.exact_modes = A.prod(Xa, s.c_exact, sel)
    s.adjoint_modes = A.prod(Xs, s.c_adj, sel)
    adj = A.prod(Xs, s.c_adj)
    s.proj_coeffs = A.prod(A.H(adj), W, Xs)
    s.adv_proj_coeffs = A.prod(A.H(adj), W, Xa)
    s.spectral_coeffs = A.absv(MV(A.mul(s.proj_coeffs, A.sel(('at', 0)))))
    return s


def spec_tls(A, Xs, Xa, W, cfg, mi):
    K, Ka = A.prod(A.H(Xs), W, Xs), A.prod(A.H(Xa), W, Xa)
    sv, SE = A.eigh(A.add(K, Ka))
    if cfg.trunc == 'smaller':
        SE = A.mul(SE, A.sel(':max_num_eigvals'))
        sv = A.selv(sv, ':max_num_eigvals')
    P = A.mul(SE, A.H(SE))
    s = spec_dmd(A, A.mul(Xs, P), A.mul(Xa, P), W, cfg, mi)
    s.c_proj, s.c_exact, s.c_adj = A.mul(P, s.c_proj), A.mul(P, s.c_exact), A.mul(P, s.c_adj)
    s.sum_correlation_array_eigvals, s.sum_correlation_array_eigvecs = sv, SE
    s.correlation_array, s.adv_correlation_array = K, Ka
    s.sum_correlation_array = A.add(K, Ka)
    s.cross_correlation_array = A.prod(A.H(Xs), W, Xa)
    return s


EIG = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'exact_modes', 'proj_modes', 'adjoint_modes',
       'correlation_array_eigvals', 'correlation_array_eigvecs']
COEF = ['spectral_coeffs', 'proj_coeffs', 'adv_proj_coeffs']
TLS = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'exact_modes', 'proj_modes', 'adjoint_modes',
       'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']


def dmd_cells(thorough=True):
    for wd in WD:
        for adv in (True, False):
            for tr in (None, 'smaller', 'notsmaller'):
                for mi in (True, False):
                    yield Cfg(none=(() if adv else ('adv_vecs',)) + (() if mi else ('mode_indices',)), wdim=wd, trunc=tr)


def dmd_setup(cfg, A, X, Y):
    if 'adv_vecs' in cfg.none:
        return A.mul(A.inp(X), A.sel(':-1')), A.mul(A.inp(X), A.sel('1:'))
    return A.inp(X), A.inp(Y)


def dmd_arrays(c, qual, cfg, names, spec):
    r, f = run_arrays(qual, cfg)
    A, inputs, W = algebra(cfg, ['vecs', 'adv_vecs'])
    if 'adv_vecs' in cfg.none:
        A.tails.add(('in', 'vecs'))
    cv = conv(A, inputs, cfg)
    Xs, Xa = dmd_setup(cfg, A, 'vecs', 'adv_vecs')
    s = spec(A, Xs, Xa, W, cfg, None if 'mode_indices' in cfg.none else MI)
    check_record(c, qual, cfg, r, f, A, cv, s, names)


def dmd_handles(c, cls, spec, what, mode='eig'):
    for adv in (True, False):
        for tr in (None, 'smaller', 'notsmaller'):
            for given in (False, True):
                cfg = Cfg(none=() if adv else ('adv_vec_handles', 'adv_vecs'), trunc=tr, name=what)
                r, o = new_handles(cls, cfg)
                A, cv, W = handle_algebra(cfg, ['vec_handles', 'adv_vec_handles', 'other_handles', 'other_adv_handles'])
                if not adv:
                    A.tails.add(('in', 'vec_handles'))
                    A.tails.add(('in', 'other_handles'))
                Xs, Xa = dmd_setup(cfg, A, 'vec_handles', 'adv_vec_handles')
                s = spec(A, Xs, Xa, W, cfg, None)
                res = r.deep(r.method(o, 'compute_decomp', given=cfg_given(r, o, 'compute_decomp', cfg)) if False else
                             r.method(o, 'compute_decomp', [sym('vec_handles')], [
                                 ('adv_vec_handles', sym('adv_vec_handles') if adv else NONE), ('atol', sym('atol')), ('rtol', sym('rtol')),
                                 ('max_num_eigvals', sym('max_num_eigvals') if tr else NONE)]))
                cn = cls.split('.')[1]
                tag = cn + '.compute_decomp'
                loc = mlocs(r, o, 'compute_decomp')
                tls = 'TLS' in cls
                order = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs'] + (
                    ['sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']
                    if tls else ['correlation_array_eigvals', 'correlation_array_eigvecs'])
                if mode == 'eig':
                    for i, n in enumerate(order):
                        compare(c, '%s result %d [%s]' % (tag, i, cfg), tag, loc, A, cv, mkindex(res, const(i)), getattr(s, n), n)
                    for n in order + ['correlation_array', 'cross_correlation_array', 'low_order_linear_map'] + (
                            ['adv_correlation_array', 'sum_correlation_array', 'proj_correlation_array'] if tls else []):
                        compare(c, '%s attribute %s [%s]' % (tag, n, cfg), tag, loc, A, cv, r.attr(o, n), getattr(s, n), n)
                    for m, coef, kwn in (('exact', s.c_exact, 'adv_vec_handles'), ('proj', s.c_proj, 'vec_handles'), ('adjoint', s.c_adj, 'vec_handles')):
                        if given and m == 'exact' and not adv:
                            continue
                        n0 = len(r.events)
                        mt = 'compute_%s_modes' % m
                        oth = sym('other_adv_handles') if m == 'exact' else sym('other_handles')
                        st0 = r.st.copy()
                        A2 = A
                        try:
                            r.method(o, mt, [sym('mode_indices'), sym('mode_handles')], [(kwn, oth)] if given else [])
                        finally:
                            pass
                        basis = Xa if m == 'exact' else Xs
                        if given:
                            # same number of vectors as the decomposed ones
                            basis = A.inp('other_adv_handles') if m == 'exact' else (
                                A.inp('other_handles') if adv else A.mul(A.inp('other_handles'), A.sel(':-1')))
                        tag2 = '%s.%s' % (cn, mt)
                        cv2 = lens(cv, A, adv)
                        reach = []
                        for e in lin_combines(r):
                            if e.seq < n0:
                                continue
                            if any(pol is not None and cv2.cond(t) is (not pol) for t, pol in e.pc):
                                continue
                            reach.append(e)
                        if len(reach) != 1:
                            if not reach:
                                c.violate('definition', tag2, mlocs(r, o, mt), '%s computes no modes when %s' % (tag2, cfg))
                            else:
                                c.undecided('%s [%s]' % (tag2, cfg), '%d calls of lin_combine not told apart' % len(reach))
                        else:
                            check_lincomb(c, '%s [%s%s]' % (tag2, cfg, ', vectors given' if given else ''), tag2, mlocs(r, o, mt), A, cv2, reach[0],
                                          basis, coef, sym('mode_handles'))
                        r.st = st0
                        r.st.alive = True
                else:
                    m = r.deep(r.method(o, 'compute_spectrum'))
                    loc1, loc2 = mlocs(r, o, 'compute_spectrum'), mlocs(r, o, 'compute_proj_coeffs')
                    compare(c, '%s.compute_spectrum [%s]' % (cn, cfg), cn + '.compute_spectrum', loc1, A, cv, m, s.spectral_coeffs, 'spectral_coeffs')
                    compare(c, '%s.spectral_coeffs [%s]' % (cn, cfg), cn + '.compute_spectrum', loc1, A, cv, r.attr(o, 'spectral_coeffs'), s.spectral_coeffs, 'spectral_coeffs')
                    m = r.deep(r.method(o, 'compute_proj_coeffs'))
                    for i, n in enumerate(('proj_coeffs', 'adv_proj_coeffs')):
                        compare(c, '%s.compute_proj_coeffs result %d [%s]' % (cn, i, cfg), cn + '.compute_proj_coeffs', loc2, A, cv, mkindex(m, const(i)), getattr(s, n), n)
                        compare(c, '%s.%s [%s]' % (cn, n, cfg), cn + '.compute_proj_coeffs', loc2, A, cv, r.attr(o, n), getattr(s, n), n)
                c.note('functions x cases')


def lens(cv, A, adv):
    """Other handles have as many vectors as the decomposed ones."""
    d = dict(cv.inputs)
    c2 = Conv(A, d, cv.hook, cv.decide)
    old = cv.dimof

    def dimof(t):
        x = old(t)
        if x is not None and x[0] in (('cols', 'other_handles'),):
            return (('cols', 'vec_handles'), x[1])
        if x is not None and x[0] in (('cols', 'other_adv_handles'), ('cols', 'adv_vec_handles')):
            return (('cols', 'vec_handles'), x[1])
        return x
    c2.dimof = dimof
    return c2


@prop('N03', 'value-numbering of the computed arrays into a linear-algebra normal form, compared with the definition of DMD', NOTE)
def n03(c):
    c.rule('definition', 'normal form of the computed quantity = normal form of its definition')
    for qual in ('dmd.compute_DMD_arrays_snaps_method', 'dmd.compute_DMD_arrays_direct_method'):
        for cfg in dmd_cells():
            c.ob('%s [%s]' % (qual, cfg), dmd_arrays, c, qual, cfg,
                 EIG + (['correlation_array', 'cross_correlation_array'] if 'snaps' in qual else []), spec_dmd)
    c.ob('DMDHandles', dmd_handles, c, 'dmd.DMDHandles', spec_dmd, 'handles')


@prop('N05', 'value-numbering of the computed arrays into a linear-algebra normal form, compared with the definition of total-least-squares DMD', NOTE)
def n05(c):
    c.rule('definition', 'normal form of the computed quantity = normal form of its definition')
    for qual in ('dmd.compute_TLSqrDMD_arrays_snaps_method', 'dmd.compute_TLSqrDMD_arrays_direct_method'):
        for cfg in dmd_cells():
            c.ob('%s [%s]' % (qual, cfg), dmd_arrays, c, qual, cfg,
                 TLS + (['correlation_array', 'adv_correlation_array', 'cross_correlation_array'] if 'snaps' in qual else []), spec_tls)
    c.ob('TLSqrDMDHandles', dmd_handles, c, 'dmd.TLSqrDMDHandles', spec_tls, 'handles')


@prop('N04', 'value-numbering of the coefficient arrays into a linear-algebra normal form, compared with adjoint-mode projections', NOTE)
def n04(c):
    c.rule('definition', 'normal form of the computed quantity = normal form of its definition')
    for kind, spec in (('DMD', spec_dmd), ('TLSqrDMD', spec_tls)):
        for m in ('snaps', 'direct'):
            qual = 'dmd.compute_%s_arrays_%s_method' % (kind, m)
            for cfg in dmd_cells():
                if 'mode_indices' in cfg.none:
                    continue
                c.ob('%s [%s]' % (qual, cfg), dmd_arrays, c, qual, cfg, COEF, spec)
        c.ob('%sHandles' % kind, dmd_handles, c, 'dmd.%sHandles' % kind, spec, 'handles', 'coef')
