"""N06 (array inner products) and N07 (Galerkin projections)."""
from .pod_bpod_dmd import *

NOTE6 = ('Equality of algebraic normal forms for every kind of weights, all dimensions, all real or complex data; exact arithmetic. '
         'Trusts numpy dot/conj/indexing semantics.')


@prop('N06', 'value-numbering of the returned arrays into a linear-algebra normal form, compared with X*WY', NOTE6)
def n06(c):
    c.rule('definition', 'normal form of the computed quantity = normal form of its definition')
    for wd in WD:
        cfg = Cfg(wdim=wd)
        cfg.none.discard('max_num_eigvals')
        c.ob('VectorSpaceArrays [%s]' % cfg, vsa, c, cfg)


def vsa(c, cfg):
    def setup():
        r = Run(hpkg(), assume=cfg.assume, prims={})
        o = r.new('vectorspace.VectorSpaceArrays', [], [('weights', NONE if cfg.wdim is None else sym('inner_product_weights'))])
        if not r.st.alive:
            raise Undecided('constructor raises')
        A, inputs, W = algebra(cfg, ['X', 'Y', 'C'])
        return r, o, A, conv(A, inputs, cfg), W
    for name, args, spec in (
            ('compute_inner_product_array', [sym('X'), sym('Y')], lambda A, W: A.prod(A.H(A.inp('X')), W, A.inp('Y'))),
            ('compute_symm_inner_product_array', [sym('X')], lambda A, W: A.prod(A.H(A.inp('X')), W, A.inp('X'))),
            ('lin_combine', [sym('X'), sym('C')], lambda A, W: A.prod(A.inp('X'), A.inp('C'))),
            ('lin_combine', [sym('X'), sym('C'), sym('indices')], lambda A, W: A.prod(A.inp('X'), A.inp('C'), A.sel(('idx', 'indices'))))):
        r, o, A, cv, W = setup()
        v = r.deep(callm(r, o, name, args))
        tag = 'VectorSpaceArrays.%s' % name
        compare(c, '%s(%s) [%s]' % (tag, ', '.join(a.args[0] for a in args), cfg), tag, modloc(r, o, name), A, cv, v, spec(A, W), 'the defined array')
        c.note('methods x cases')


def callm(r, o, name, args, kw=()):
    """Call o.name, a method or an attribute holding a callable."""
    f = r.an.objattr(o, name, r.st, r.fr, r.mod, __import__('sa.driver', fromlist=['_NODE'])._NODE)
    return r.an.call(f, list(args), list(kw), r.st, r.fr, r.mod, __import__('sa.driver', fromlist=['_NODE'])._NODE)


def modloc(r, o, name):
    cl = r.an.objcls[o.args[0]]
    w, _ = cl.lookup(name)
    if w is not None and w.op == 'fn':
        return floc(w.args[0])
    return '%s:%d' % (cl.module.path, cl.node.lineno)


@prop('N07', 'value-numbering of the reduced arrays into a linear-algebra normal form, compared with the Petrov-Galerkin model; effect analysis of put_model', NOTE6)
def n07(c):
    c.rule('definition', 'normal form of the computed quantity = normal form of its definition')
    c.rule('saved-model', 'put_model writes the reduced arrays, each to its own destination')
    for h in (False, True):
        for orth in (False, True):
            for adj in (False, True):
                for wd in ((None,) if h else WD):
                    c.ob('%s orthonormal=%s adjoint=%s weights=%s' % ('handles' if h else 'arrays', orth, adj, wd), galerkin, c, h, orth, adj, wd)


def galerkin(c, h, orth, adj, wd):
    cfg = Cfg(wdim=wd)
    cn = 'LTIGalerkinProjection' + ('Handles' if h else 'Arrays')
    cls = 'ltigalerkinproj.' + cn
    X, Y = ('basis_vec_handles', 'adjoint_basis_vec_handles') if h else ('basis_vecs', 'adjoint_basis_vecs')

    def setup():
        r = Run(hpkg(), assume=cfg.assume, prims=PRIMS)
        kw = [(X, sym(X)), (Y, sym(Y) if adj else NONE), ('is_basis_orthonormal', const(orth)), ('put_array', sym('put_array'))]
        if h:
            kw.append(('inner_product', sym('inner_product')))
        else:
            kw.append(('inner_product_weights', NONE if wd is None else sym('inner_product_weights')))
        o = r.new(cls, [], kw)
        if not r.st.alive:
            raise Undecided('constructor raises')
        names = [X, Y, 'AX', 'BE', 'C']
        if h:
            A, cv, W = handle_algebra(cfg, names)
        else:
            A, inputs, W = algebra(cfg, names)
            cv = conv(A, inputs, cfg)
        x = A.inp(X)
        y = A.inp(Y) if adj else x
        s = Spec()
        P = A.ident() if orth else A.inv(A.prod(A.H(y), W, x))
        s.A_reduced = A.prod(P, A.H(y), W, A.inp('AX'))
        s.B_reduced = A.prod(P, A.H(y), W, A.inp('BE'))
        s.C_reduced = A.tr(A.inp('C')) if h else A.inp('C')
        return r, o, A, cv, s
    cell = 'orthonormal=%s adjoint=%s weights=%s' % (orth, adj, wd)
    r, o, A, cv, s = setup()
    res = r.deep(r.method(o, 'compute_model', [sym('AX'), sym('BE'), sym('C')]))
    if not r.st.alive:
        raise Undecided('compute_model raises')
    loc = mlocs(r, o, 'compute_model')
    for i, n in enumerate(('A_reduced', 'B_reduced', 'C_reduced')):
        compare(c, '%s.compute_model result %d [%s]' % (cn, i, cell), cn + '.compute_model', loc, A, cv, mkindex(res, const(i)), getattr(s, n), n)
        compare(c, '%s.%s [%s]' % (cn, n, cell), cn + '.compute_model', loc, A, cv, r.attr(o, n), getattr(s, n), n)
    # saving
    n0 = len(r.events)
    r.method(o, 'put_model', [sym('dA'), sym('dB'), sym('dC')])
    saved = {}
    for e in r.events[n0:]:
        if e.kind == 'call' and e.d['func'] is sym('put_array') and len(e.d['args']) == 2:
            saved[e.d['args'][1]] = (r.deep(e.d['args'][0]), e)
    for n, d in (('A_reduced', 'dA'), ('B_reduced', 'dB'), ('C_reduced', 'dC')):
        if sym(d) not in saved:
            if len(saved) == 3 or not saved:
                c.violate('saved-model', cn + '.put_model', mlocs(r, o, 'put_model'), 'put_model does not write %s to its destination' % n)
            else:
                c.undecided('%s.put_model' % cn, 'destinations not followed')
            continue
        v, e = saved[sym(d)]
        compare(c, '%s.put_model %s [%s]' % (cn, n, cell), cn + '.put_model', e.loc, A, cv, v, getattr(s, n), n, rule='saved-model')
    # every part on its own, on a fresh object
    for m, a, n in (('reduce_A', 'AX', 'A_reduced'), ('reduce_B', 'BE', 'B_reduced'), ('reduce_C', 'C', 'C_reduced')):
        r, o, A, cv, s = setup()
        v = r.deep(r.method(o, m, [sym(a)]))
        compare(c, '%s.%s [%s]' % (cn, m, cell), '%s.%s' % (cn, m), mlocs(r, o, m), A, cv, v, getattr(s, n), n)
    c.note('methods x cases', 5)
