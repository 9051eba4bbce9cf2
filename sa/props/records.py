"""N12 (tolerances reach every factorisation), N13 (mode selection), N19 (fields carry what they are named after)."""
from .pod_bpod_dmd import *

ARRAYS = [
    ('pod.compute_POD_arrays_snaps_method', 'pod'), ('pod.compute_POD_arrays_direct_method', 'pod'),
    ('bpod.compute_BPOD_arrays', 'bpod'),
    ('dmd.compute_DMD_arrays_snaps_method', 'dmd'), ('dmd.compute_DMD_arrays_direct_method', 'dmd'),
    ('dmd.compute_TLSqrDMD_arrays_snaps_method', 'tls'), ('dmd.compute_TLSqrDMD_arrays_direct_method', 'tls')]
HANDLES = [('pod.PODHandles', 'pod'), ('bpod.BPODHandles', 'bpod'), ('dmd.DMDHandles', 'dmd'), ('dmd.TLSqrDMDHandles', 'tls')]


def n12_cells(kind):
    for wd in WD:
        for adv in ((True, False) if kind in ('dmd', 'tls') else (True,)):
            for tr in ((None, 'smaller', 'notsmaller') if kind in ('dmd', 'tls') else (None,)):
                yield Cfg(none=() if adv else ('adv_vecs',), wdim=wd, trunc=tr)


def feasible(cv, e):
    """False when a condition on the event's path is decided against it."""
    for t, pol in e.pc:
        try:
            d = cv.cond(t)
        except Unknown:
            d = None
        if d is not None and d is not pol:
            return False
    return True


def tolerances(c, tag, r, evs, cv, loc0):
    """atol/rtol of every factorisation are the caller's."""
    n = 0
    for e in evs:
        if e.kind == 'call' and e.d['func'].op == 'ext' and e.d['func'].args[0] in (
                'numpy.linalg.svd', 'numpy.linalg.eigh', 'scipy.linalg.svd', 'scipy.linalg.eigh') and feasible(cv, e):
            c.violate('tolerance', tag, e.loc, '%s factorises with %s, which truncates nothing' % (tag, e.d['func'].args[0]))
        if e.kind != 'prim' or e.d['qual'] not in ('util.svd', 'util.eigh') or not feasible(cv, e):
            continue
        n += 1
        d = dict(e.d['args'])
        for t in ('atol', 'rtol'):
            v = d.get(t, NONE)
            v = r.deep(v)
            if v is sym(t):
                continue
            if v.op == 'const' or v.op == 'sym' or v.op == 'bin' or v.op in ('bool', 'phi') and altered(v, t):
                c.violate('tolerance', '%s.%s' % (tag, t), e.loc, '%s passes %s=%s to %s instead of the given %s' % (
                    tag, t, show(v, 4), e.d['qual'], t))
            else:
                c.undecided('%s %s' % (tag, t), 'value %s' % show(v, 4))
    if not n:
        raise Undecided('%s: no factorisation found' % tag)
    c.note('factorisations', n)
    return n


def altered(v, t):
    """Can a choice between numbers differ from the tolerance given?  Decided where only None and zero tests are involved."""
    from .handles import truth, resolve, eqpair, Unk
    for a in (None, 0, 1):
        for r_ in (None, 0, 1):
            val = {'atol': a, 'rtol': r_}
            if val['atol'] is None or val[t] is None and t == 'atol':
                continue

            def atom(x):
                if x.op == 'sym' and x.args[0] in val:
                    return bool(val[x.args[0]])
                p = eqpair(x)
                if p:
                    for y, z in ((p[0], p[1]), (p[1], p[0])):
                        if z.op == 'const' and y.op == 'sym' and y.args[0] in val:
                            return (val[y.args[0]] is None if z is NONE else val[y.args[0]] == z.args[0]) == p[2]
                raise Unk(show(x, 3))
            try:
                w = resolve(v, atom)
            except Unk:
                return False
            if w is sym(t):
                continue
            x = w.args[0] if w.op == 'const' else val.get(w.args[0], 'other') if w.op == 'sym' else '?'
            if x == '?':
                return False
            if x != val[t] and not (t == 'rtol' and not x and not val[t]):
                return True
            if w.op == 'sym' and w.args[0] in val:
                return True
    return False


def posdef(c, tag, r, evs, cv):
    """Eigendecompositions of correlation arrays ask for positive eigenvalues only."""
    for e in evs:
        if e.kind == 'prim' and e.d['qual'] == 'util.eigh' and feasible(cv, e):
            v = dict(e.d['args']).get('is_positive_definite', FALSE)
            if v is FALSE:
                c.violate('positive', tag, e.loc, '%s keeps negative eigenvalues of a correlation array (is_positive_definite is not set)' % tag)


@prop('N12', 'dataflow of atol/rtol/max_num_eigvals to every factorisation call; normal forms of the truncated factors', NOTE)
def n12(c):
    c.rule('tolerance', 'every svd/eigh reached from a public computation receives the caller\'s atol and rtol unchanged')
    c.rule('positive', 'eigenvalues of correlation arrays are required positive')
    c.rule('truncation', 'with max_num_eigvals the leading values and matching columns are kept, on every truncated factor')
    for qual, kind in ARRAYS:
        for cfg in n12_cells(kind):
            def go():
                r, f = run_arrays(qual, cfg)
                A, inputs, W = algebra(cfg, ['vecs', 'adv_vecs', 'direct_vecs', 'adjoint_vecs'])
                cv = conv(A, inputs, cfg)
                n = tolerances(c, qual, r, r.events, cv, floc(f))
                posdef(c, qual, r, r.events, cv)
                return '%d factorisations' % n
            c.ob('%s [%s]' % (qual, cfg), go)
            if cfg.trunc is not None:
                c.ob('%s truncation [%s]' % (qual, cfg), dmd_arrays, c, qual, cfg,
                     ['eigvals'] + (['correlation_array_eigvals', 'correlation_array_eigvecs'] if kind == 'dmd' else
                                    ['sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']),
                     spec_dmd if kind == 'dmd' else spec_tls)
    for cls, kind in HANDLES:
        for m in ('compute_decomp', 'compute_SVD' if kind == 'bpod' else 'compute_eigendecomp'):
            for tr in ((None, 'smaller', 'notsmaller') if kind in ('dmd', 'tls') else (None,)):
                for adv in ((True, False) if kind in ('dmd', 'tls') and m == 'compute_decomp' else (True,)):
                    c.ob('%s.%s [%s adv=%s]' % (cls, m, tr, adv), handle_tol, c, cls, m, tr, adv, kind)


def handle_tol(c, cls, m, tr, adv, kind):
    cfg = Cfg(none=() if adv else ('adv_vec_handles', 'adv_vecs'), trunc=tr)
    r, o = new_handles(cls, cfg)
    arr = ['correlation_array', 'adv_correlation_array', 'cross_correlation_array', 'Hankel_array']
    if m != 'compute_decomp':
        for a in arr:
            r.setattr(o, a, sym(a))
    names = ['vec_handles', 'adv_vec_handles', 'direct_vec_handles', 'adjoint_vec_handles'] + arr
    A, cv, W = handle_algebra(cfg, names)
    if not adv:
        A.tails.add(('in', 'vec_handles'))
    n0 = len(r.events)
    f = r.an.objcls[o.args[0]].lookup(m)[0].args[0]
    given = {}
    if tr is None and kind in ('dmd', 'tls'):
        given['max_num_eigvals'] = NONE
    if not adv:
        given['adv_vec_handles'] = NONE
    args, kw = r.symargs(f, given=given)
    r.method(o, m, args, kw)
    tag = '%s.%s' % (cls.split('.')[1], m)
    n = tolerances(c, tag, r, r.events[n0:], cv, floc(f))
    posdef(c, tag, r, r.events[n0:], cv)
    if tr is not None:
        Xs, Xa = dmd_setup(cfg, A, 'vec_handles', 'adv_vec_handles')
        if m == 'compute_decomp':
            s = (spec_dmd if kind == 'dmd' else spec_tls)(A, Xs, Xa, W, cfg, None)
        else:
            A.herm |= {('in', 'correlation_array'), ('in', 'adv_correlation_array')}
            s = Spec()
            K = A.inp('correlation_array')
            if kind == 'tls':
                s.sum_correlation_array_eigvals, SE = A.eigh(A.add(K, A.inp('adv_correlation_array')))
                if tr == 'smaller':
                    SE = A.mul(SE, A.sel(':max_num_eigvals'))
                    s.sum_correlation_array_eigvals = A.selv(s.sum_correlation_array_eigvals, ':max_num_eigvals')
                s.sum_correlation_array_eigvecs = SE
                P = A.mul(SE, A.H(SE))
                K = A.prod(P, K, P)
            ev, E = A.eigh(K)
            if tr == 'smaller':
                ev, E = A.selv(ev, ':max_num_eigvals'), A.mul(E, A.sel(':max_num_eigvals'))
            s.correlation_array_eigvals = s.proj_correlation_array_eigvals = ev
            s.correlation_array_eigvecs = s.proj_correlation_array_eigvecs = E
        for n in (['correlation_array_eigvals', 'correlation_array_eigvecs'] if kind == 'dmd' else
                  ['sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']):
            compare(c, '%s %s [%s]' % (tag, n, cfg), tag, floc(f), A, cv, r.attr(o, n), getattr(s, n), n, rule='truncation')


# ------------------------------------------------------------------ N13
@prop('N13', 'value-numbering of the mode arrays with a symbolic index list; selection factors compared with the definition', NOTE)
def n13(c):
    c.rule('selection', 'modes are exactly the requested columns of the full mode array, in the requested order')
    for qual, kind in ARRAYS:
        for wd in WD:
            for mi in (True, False):
                adv = (True, False) if kind in ('dmd', 'tls') else (True,)
                for a in adv:
                    if kind == 'bpod':
                        cfg = Cfg(none=() if mi else ('direct_mode_indices', 'adjoint_mode_indices'), wdim=wd)
                        c.ob('%s [%s]' % (qual, cfg), bpod_arrays, c, cfg)
                        continue
                    cfg = Cfg(none=(() if a else ('adv_vecs',)) + (() if mi else ('mode_indices',)), wdim=wd)
                    if kind == 'pod':
                        c.ob('%s [%s]' % (qual, cfg), pod_modes, c, qual, cfg)
                    else:
                        c.ob('%s [%s]' % (qual, cfg), dmd_arrays, c, qual, cfg, ['exact_modes', 'proj_modes', 'adjoint_modes'],
                             spec_dmd if kind == 'dmd' else spec_tls)
    c.ob('PODHandles', pod_handles, c)
    c.ob('BPODHandles', bpod_handles, c)
    c.ob('DMDHandles', dmd_handles, c, 'dmd.DMDHandles', spec_dmd, 'handles')
    c.ob('TLSqrDMDHandles', dmd_handles, c, 'dmd.TLSqrDMDHandles', spec_tls, 'handles')
    for a in (True, False):
        c.ob('VectorSpaceArrays.lin_combine', lin_combine_cols, c, a)


def pod_modes(c, qual, cfg):
    r, f = run_arrays(qual, cfg)
    A, inputs, W = algebra(cfg, ['vecs'])
    cv = conv(A, inputs, cfg)
    s = spec_pod(A, A.inp('vecs'), W, None if 'mode_indices' in cfg.none else MI)
    check_record(c, qual, cfg, r, f, A, cv, s, ['modes'])


def lin_combine_cols(c, given):
    r = Run(hpkg(), prims={})
    o = r.new('vectorspace.VectorSpaceArrays', [], [('weights', NONE)])
    A = Algebra()
    cv = Conv(A, {sym(n): A.inp(n) for n in ('X', 'C')})
    v = r.deep(r.method(o, 'lin_combine', [sym('X'), sym('C'), sym('indices') if given else NONE]))
    cv.decide = lambda t: False if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE else None
    compare(c, 'VectorSpaceArrays.lin_combine (%s)' % given, 'VectorSpaceArrays.lin_combine', mlocs(r, o, 'lin_combine'), A, cv, v,
            A.prod(A.inp('X'), A.inp('C'), A.sel(('idx', 'indices') if given else None)), 'the combination', rule='selection')


# ------------------------------------------------------------------ N19
FIELDS = {
    'pod.compute_POD_arrays_snaps_method': ['modes', 'eigvals', 'proj_coeffs', 'eigvecs', 'correlation_array'],
    'pod.compute_POD_arrays_direct_method': ['modes', 'eigvals', 'proj_coeffs', 'eigvecs'],
}


@prop('N19', 'value-numbering of every field of every result record, compared with the quantity the field is named after', NOTE)
def n19(c):
    c.rule('definition', 'the field holds the quantity of its name')
    for qual, names in FIELDS.items():
        def go():
            cfg = Cfg()
            r, f = run_arrays(qual, cfg)
            A, inputs, W = algebra(cfg, ['vecs'])
            cv = conv(A, inputs, cfg)
            check_record(c, qual, cfg, r, f, A, cv, spec_pod(A, A.inp('vecs'), W, MI), names)
        c.ob(qual, go)
    c.ob('BPOD', bpod_arrays, c, Cfg())
    for adv in (True, False):
        cfg = Cfg(none=() if adv else ('adv_vecs',))
        for m in ('snaps', 'direct'):
            c.ob('DMD %s [%s]' % (m, cfg), dmd_arrays, c, 'dmd.compute_DMD_arrays_%s_method' % m, cfg,
                 EIG + COEF + (['correlation_array', 'cross_correlation_array'] if m == 'snaps' else []), spec_dmd)
            c.ob('TLSqrDMD %s [%s]' % (m, cfg), dmd_arrays, c, 'dmd.compute_TLSqrDMD_arrays_%s_method' % m, cfg,
                 TLS + COEF + (['correlation_array', 'adv_correlation_array', 'cross_correlation_array'] if m == 'snaps' else []), spec_tls)
    # the tuples returned by handle-based decompositions
    c.ob('PODHandles', pod_handles, c)
    c.ob('BPODHandles', bpod_handles, c)
    for cls, kind in HANDLES[2:]:
        c.ob(cls, tuple_order, c, cls, kind)


def tuple_order(c, cls, kind):
    cfg = Cfg()
    r, o = new_handles(cls, cfg)
    A, cv, W = handle_algebra(cfg, ['vec_handles', 'adv_vec_handles'])
    s = (spec_dmd if kind == 'dmd' else spec_tls)(A, A.inp('vec_handles'), A.inp('adv_vec_handles'), W, cfg, None)
    res = r.deep(r.method(o, 'compute_decomp', given={'max_num_eigvals': NONE}) if False else r.method(o, 'compute_decomp', [sym('vec_handles')], [('adv_vec_handles', sym('adv_vec_handles'))]))
    cn = cls.split('.')[1]
    tag = cn + '.compute_decomp'
    order = ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs'] + (
        ['sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs']
        if kind == 'tls' else ['correlation_array_eigvals', 'correlation_array_eigvecs'])
    for i, n in enumerate(order):
        compare(c, '%s result %d' % (tag, i), tag, mlocs(r, o, 'compute_decomp'), A, cv, mkindex(res, const(i)), getattr(s, n), n)
    pcs = r.deep(r.method(o, 'compute_proj_coeffs'))
    for i, n in enumerate(('proj_coeffs', 'adv_proj_coeffs')):
        compare(c, '%s.compute_proj_coeffs result %d' % (cn, i), cn + '.compute_proj_coeffs', mlocs(r, o, 'compute_proj_coeffs'), A, cv, mkindex(pcs, const(i)), getattr(s, n), n)
    compare(c, '%s.compute_spectrum' % cn, cn + '.compute_spectrum', mlocs(r, o, 'compute_spectrum'), A, cv, r.deep(r.method(o, 'compute_spectrum')), s.spectral_coeffs, 'spectral_coeffs')
