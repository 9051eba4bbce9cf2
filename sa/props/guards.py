"""S03: invalid input is rejected with the documented exception before any effect."""
from ..common import *
from ..report import prop
from ..elemcheck import *
from ..numrun import PRIMS, floc
from ..par import comm_op
from .handles import extname
from .elementwise import dim
import os
DEBUG = os.environ.get('GDEBUG')

NOTE = ('Every raise statement reached by the symbolic execution is evaluated, in order, at symbolic sizes constrained only by the inconsistency; a size question that is '
        'not decided is split into cases. Effects are writes through handles and user functions, files, and messages.')

WRITES = {'put', '_put', 'put_array'}
FILES = {'numpy.savetxt', 'numpy.save', 'numpy.savez', 'pickle.dump'}
MESSAGES = {'send', 'isend', 'recv', 'irecv', 'sendrecv', 'bcast', 'reduce', 'allreduce', 'gather', 'allgather', 'scatter', 'alltoall', 'barrier', 'ssend', 'scan'}
VSPACE = {'vectorspace.VectorSpaceHandles.compute_inner_product_array', 'vectorspace.VectorSpaceHandles.compute_symm_inner_product_array', 'vectorspace.VectorSpaceHandles.lin_combine'}


def effect(e):
    """What the event does to the outside, or None."""
    d = e.d
    op = comm_op(e)
    if op is not None and op[0].lower() in MESSAGES:
        return 'a message (%s) is exchanged' % op[0]
    if e.kind == 'mcall' and d['name'] in WRITES:
        return '%s.%s is called' % (show(d['recv'], 2)[:40], d['name'])
    if e.kind == 'call':
        n = extname(d['func'])
        if n in FILES:
            return 'a file is written'
        if n == 'builtins.open' and any('w' in str(x.args[0]) for x in list(d['args'][1:2]) + [v for k, v in d['kw'] if k == 'mode'] if x.op == 'const'):
            return 'a file is written'
        if d['func'].op == 'attr' and d['func'].args[1] in WRITES:
            return '%s is called' % d['func'].args[1]
    if e.kind == 'prim' and d['qual'] in VSPACE:
        return '%s is called' % d['qual'].rsplit('.', 1)[-1]
    return None


def exc_name(t):
    if t is None:
        return '?'
    if t.op == 'call':
        return exc_name(t.args[0])
    if t.op == 'ext':
        return t.args[0].rsplit('.', 1)[-1]
    if t.op == 'class':
        return t.args[0].name if hasattr(t.args[0], 'name') else str(t.args[0])
    if t.op == 'obj':
        return '?obj'
    return '?'


def lst(name):
    return Lst(dim(name), lambda i: Opq((name, i)))


class Case(object):
    def __init__(self, name, construct, run, inputs, facts, exc, decide=None, bad=True):
        self.name, self.construct, self.run, self.inputs, self.facts, self.exc, self.decide, self.bad = name, construct, run, inputs, facts, exc, decide, bad


def exc_of(r, e):
    x = e.d['exc']
    if isinstance(x, T):
        n = exc_name(x)
        if n == '?obj':
            cl = r.an.objcls.get(x.args[0])
            n = cl.name if cl is not None else '?'
        return n
    return '?'


def check_case(c, case):
    r, n0, loc = case.run()
    events = [e for e in r.events if e.seq >= n0]
    raises = [e for e in events if e.kind == 'raise']
    out = []

    def run(fx):
        ev = Ev(case.inputs, fx, decide=lambda t: decide(case, t), loops=r.an.loops)

        def holds(e):
            """True, False or None: the event is reached."""
            known = True
            for t, pol in e.pc:
                t = r.deep(t)
                try:
                    v = ev.cond(t)
                except Unk as u:
                    if DEBUG:
                        print('UNK', u, show(t, 6)[:200])
                    v = None
                if v is None and DEBUG:
                    print('??', e.kind, show(t, 6)[:200])
                if v is None:
                    known = None
                elif v != bool(pol):
                    return False
            return known
        maybe = False
        for e in raises:
            if e.loops:
                h = holds(e)
                if h is not False:
                    maybe = True
                continue
            h = holds(e)
            if h is None:
                maybe = True
            elif h:
                before = []
                for x in events:
                    if x.seq >= e.seq:
                        break
                    w = effect(x)
                    if w is not None and holds(x):
                        before.append((x, w))
                return ('raised', e, before)
        return ('maybe', None, None) if maybe else ('none', None, None)
    ok = True
    try:
        for fx, (what, e, before) in cells(case.facts, run):
            out.append(what)
            if what == 'maybe':
                raise Undecided('%s: a raise condition is not understood' % case.name)
            if what == ('raised' if not case.bad else 'none') and fx.model(top=7) is None:
                raise Undecided('%s: no example sizes' % case.name)
            if not case.bad:
                if what == 'raised':
                    c.violate('accepts', case.construct, e.loc, '%s is rejected with %s although it is consistent' % (case.name, exc_of(r, e)))
                    return False
                continue
            if what == 'none':
                c.violate('rejects', case.construct, loc, '%s is not rejected%s' % (case.name, example(fx)))
                return False
            n = exc_of(r, e)
            if n != '?' and n not in case.exc:
                c.violate('exception', case.construct, e.loc, '%s raises %s in place of %s' % (case.name, n, ' or '.join(sorted(case.exc))))
                ok = False
            if before:
                c.violate('effects', case.construct, before[0][0].loc, '%s is rejected only after %s' % (case.name, before[0][1]))
                ok = False
            if not ok:
                return False
    except Unk as u:
        raise Undecided('%s: %s' % (case.name, u))
    if not out:
        raise Undecided('%s: no case' % case.name)
    return '%d case%s' % (len(out), '' if len(out) == 1 else 's')


def example(fx):
    m = fx.model(top=7)
    if not m:
        return ''

    def nm(a):
        if isinstance(a, tuple) and a and a[0] == 'dim':
            x = a[1]
            x = x.args[0] if isinstance(x, T) and x.op == 'sym' else x
            return '%s.shape[%s]' % (x, a[2]) if len(a) > 2 else str(x)
        return str(a)
    return ' (%s)' % ', '.join('%s = %s' % (nm(a), v) for a, v in sorted(m.items(), key=str)[:8])


def decide(case, t):
    if case.decide is not None:
        v = case.decide(t)
        if v is not None:
            return v
    if t.op == 'cmp' and t.args[0] in ('is', '==') and NONE in t.args[1:]:
        x = t.args[1] if t.args[2] is NONE else t.args[2]
        if x.op == 'sym':
            return False
        if x in case.inputs:
            return False
    if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and t.args[1].op in ('call', 'bin', 'store', 'obj'):
        return False
    return None


ONE_ = ONE


def func_case(qual, given, inputs, world='nompi', prims=None, assume=None):
    """A call of a function with the parameters named in `inputs` symbolic, others as in `given`, the rest at their defaults."""
    def run():
        pk = package(world)
        r = Run(pk, assume or (lambda t: nonone(t)), dict(PRIMS if prims is None else prims))
        f = pk.func(qual)
        if f is None:
            raise Undecided('%s not found' % qual)
        kw = [(k, sym(k)) for k in inputs] + list(given)
        bind_check(f, kw)
        r.call(qual, [], kw)
        return r, 0, floc(f)
    return run


def meth_case(clsq, meth, given, inputs, world='mpiN', prims=None, opened=True, assume=None, cons=()):
    def run():
        pk = package(world)
        r = Run(pk, assume or (lambda t: nonone(t)), dict(PRIMS if prims is None else prims))
        if opened:
            o = r.obj(clsq, open_as='self')
        else:
            o = r.new(clsq, [], list(cons))
            if not r.st.alive:
                raise Undecided('the constructor raises')
        n0 = 1 + max([e.seq for e in r.events] or [-1])
        cl = r.an.objcls[o.args[0]]
        w, _ = cl.lookup(meth)
        if w is None or w.op != 'fn':
            raise Undecided('%s.%s not found' % (clsq, meth))
        kw = [(k, sym(k)) for k in inputs] + list(given)
        bind_check(w.args[0], kw)
        r.method(o, meth, [], kw)
        return r, n0, floc(w.args[0])
    return run


def new_case(clsq, given, inputs, world='nompi'):
    def run():
        pk = package(world)
        r = Run(pk, lambda t: nonone(t), dict(PRIMS))
        cl = pk.cls(clsq)
        if cl is None:
            raise Undecided('%s not found' % clsq)
        w, _ = cl.lookup('__init__')
        kw = [(k, sym(k)) for k in inputs] + list(given)
        bind_check(w.args[0], kw)
        r.new(clsq, [], kw)
        return r, 0, floc(w.args[0])
    return run


def trapz_case(clsq, grids, vecs):
    def run():
        pk = package('nompi')

        def assume(t):
            if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.isinstance':
                return True
            return nonone(t)
        r = Run(pk, assume, {})
        cl = pk.cls(clsq)
        if cl is None:
            raise Undecided('%s not found' % clsq)
        o = r.new(clsq, [sym(g) for g in grids], [])
        if not r.st.alive:
            raise Undecided('the constructor raises')
        n0 = 1 + max([e.seq for e in r.events] or [-1])
        w, _ = cl.lookup('__call__')
        if w is None or w.op != 'fn':
            raise Undecided('%s is not callable' % clsq)
        r.method(o, '__call__', [sym(v) for v in vecs])
        return r, n0, floc(w.args[0])
    return run


def bind_check(f, kw):
    a = f.node.args
    names = {x.arg for x in a.args + a.kwonlyargs}
    if a.kwarg is None and not {k for k, v in kw} <= names:
        raise Undecided('parameters of %s' % f.qual)


def nonone(t):
    if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and t.args[1].op == 'sym':
        return False
    return None


def unequal(p, q):
    return [[p - q - ONE], [q - p - ONE]]


VS = 'vectorspace.VectorSpaceHandles'
LEAF = {'util.make_iterable': PRIMS['util.make_iterable']}


def cases():
    S = sym
    out = []

    def add(name, construct, run, inputs, alts, exc, decide=None, pos=(), bad=True):
        exc = {exc} if isinstance(exc, str) else set(exc)
        for k, fs in enumerate(alts):
            out.append(Case(name, construct, run, inputs, list(pos) + list(fs), exc, decide, bad))

    # ---- linear combinations
    b, s_, rows, cols = dim('basis_vec_handles'), dim('sum_vec_handles'), dim('coeff_array', 0), dim('coeff_array', 1)
    ins = {S('sum_vec_handles'): lst('sum_vec_handles'), S('basis_vec_handles'): lst('basis_vec_handles'), S('coeff_array'): Inp('coeff_array', 2)}
    base = [b - ONE, s_ - ONE, rows - ONE, cols - ONE]
    names = ['sum_vec_handles', 'basis_vec_handles', 'coeff_array']
    run = meth_case(VS, 'lin_combine', [], names, prims=LEAF)
    add('a linear combination whose number of coefficient rows is not the number of basis handles', VS + '.lin_combine', run, ins, unequal(rows, b), 'ValueError', pos=base)
    add('a linear combination whose number of coefficient columns is not the number of output handles', VS + '.lin_combine', run, ins,
        [u + [rows - b, b - rows] for u in unequal(cols, s_)], 'ValueError', pos=base)
    add('a linear combination with matching numbers', VS + '.lin_combine', run, ins, [[rows - b, b - rows, cols - s_, s_ - cols]], (), pos=base, bad=False)
    ins2 = dict(ins)
    ins2[S('coeff_array_col_indices')] = Inp('coeff_array_col_indices', 1)
    k = dim('coeff_array_col_indices')
    run = meth_case(VS, 'lin_combine', [], names + ['coeff_array_col_indices'], prims=LEAF)
    add('a linear combination whose number of chosen columns is not the number of output handles', VS + '.lin_combine', run, ins2,
        [u + [rows - b, b - rows] for u in unequal(k, s_)], 'ValueError', pos=base + [k - ONE])
    add('a linear combination of chosen columns whose number of coefficient rows is not the number of basis handles', VS + '.lin_combine', run, ins2, unequal(rows, b), 'ValueError',
        pos=base + [k - ONE])
    for meth, ps in (('compute_inner_product_array', ['row_vec_handles', 'col_vec_handles']), ('compute_symm_inner_product_array', ['vec_handles'])):
        add('%s without an inner product' % meth, '%s.%s' % (VS, meth), meth_case(VS, meth, [], ps, prims=LEAF, opened=False, cons=[]),
            {S(p): lst(p) for p in ps}, [[]], 'RuntimeError', pos=[dim(p) - ONE for p in ps])

    # ---- DMD
    for cl in ('dmd.DMDHandles', 'dmd.TLSqrDMDHandles'):
        n, m = dim('vec_handles'), dim('adv_vec_handles')
        ins = {S('vec_handles'): lst('vec_handles'), S('adv_vec_handles'): lst('adv_vec_handles')}
        run = meth_case(cl, 'compute_decomp', [], ['vec_handles', 'adv_vec_handles'])
        add('unequal numbers of vectors and advanced vectors', cl + '.compute_decomp', run, ins, unequal(n, m), 'ValueError', pos=[n - ONE, m - ONE])
        add('equal numbers of vectors and advanced vectors', cl + '.compute_decomp', run, ins, [[n - m, m - n]], (), pos=[n - ONE, m - ONE], bad=False)
        if cl == 'dmd.DMDHandles':
            attrs = {'correlation_array_eigvecs': ('N', 'r'), 'correlation_array_eigvals': ('r',), 'R_low_order_eigvecs': ('r', 'r'), 'L_low_order_eigvecs': ('r', 'r'), 'eigvals': ('r',)}
        else:
            attrs = {'sum_correlation_array_eigvecs': ('N', 'r'), 'sum_correlation_array_eigvals': ('r',), 'proj_correlation_array_eigvecs': ('N', 'r'), 'proj_correlation_array_eigvals': ('r',),
                     'R_low_order_eigvecs': ('r', 'r'), 'L_low_order_eigvecs': ('r', 'r'), 'eigvals': ('r',)}
        N, rr = Poly.atom('N'), Poly.atom('r')
        state = {mk('attr', S('self'), x): Inp(x, len(d), dims=[Poly.atom(y) for y in d]) for x, d in attrs.items()}
        for meth in ('compute_proj_modes', 'compute_adjoint_modes'):
            ins = dict(state)
            ins.update({S('mode_handles'): lst('mode_handles'), S('mode_indices'): lst('mode_indices'), S('vec_handles'): lst('vec_handles')})
            run = meth_case(cl, meth, [], ['mode_indices', 'mode_handles', 'vec_handles'])
            add('a number of vectors that fits neither the decomposition nor a time series', '%s.%s' % (cl, meth), run, ins, [[n - N - K(2)], [N - ONE - n]], 'ValueError', pos=[n - ONE, N - ONE, rr - ONE])
            add('a fitting number of vectors', '%s.%s' % (cl, meth), run, ins, [[n - N, N - n], [n - N - ONE, N + ONE - n]], (), pos=[n - ONE, N - ONE, rr - ONE], bad=False)
        ins = dict(state)
        ins.update({S('mode_handles'): lst('mode_handles'), S('mode_indices'): lst('mode_indices'), mk('attr', S('self'), 'vec_handles'): lst('vec_handles')})

        def dec(t):
            if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and t.args[1] is mk('attr', sym('self'), 'adv_vec_handles'):
                return True
            return None
        run = meth_case(cl, 'compute_exact_modes', [], ['mode_indices', 'mode_handles'])
        add('a number of vectors that is not one more than that of the decomposition of a time series', cl + '.compute_exact_modes', run, ins, [[n - N - K(2)], [N - n]], 'ValueError', decide=dec,
            pos=[n - ONE, N - ONE, rr - ONE])
    # ---- missing vectors
    for cl, meths, exc in (('dmd.DMDHandles', ('compute_exact_modes', 'compute_proj_modes', 'compute_adjoint_modes'), ('ValueError', 'UndefinedError')),
                           ('dmd.TLSqrDMDHandles', ('compute_exact_modes', 'compute_proj_modes', 'compute_adjoint_modes'), ('ValueError', 'UndefinedError')),
                           ('pod.PODHandles', ('compute_modes',), ('UndefinedError',)),
                           ('bpod.BPODHandles', ('compute_direct_modes', 'compute_adjoint_modes'), ('UndefinedError',))):
        for meth in meths:
            add('computing modes before any vectors are given', '%s.%s' % (cl, meth), fresh(cl, meth), {}, [[]], exc)

    # ---- vectors in arrays
    for f in ('dmd.compute_DMD_arrays_snaps_method', 'dmd.compute_DMD_arrays_direct_method', 'dmd.compute_TLSqrDMD_arrays_snaps_method', 'dmd.compute_TLSqrDMD_arrays_direct_method'):
        ins = {S('vecs'): Inp('vecs', 2), S('adv_vecs'): Inp('adv_vecs', 2)}
        pos = [dim('vecs', 0) - ONE, dim('vecs', 1) - ONE, dim('adv_vecs', 0) - ONE, dim('adv_vecs', 1) - ONE]
        run = func_case(f, [], ['vecs', 'adv_vecs'])
        add('vecs and adv_vecs of different shapes', f, run, ins, unequal(dim('vecs', 1), dim('adv_vecs', 1)) + [u + [dim('vecs', 1) - dim('adv_vecs', 1), dim('adv_vecs', 1) - dim('vecs', 1)]
            for u in unequal(dim('vecs', 0), dim('adv_vecs', 0))], 'ValueError', pos=pos)

    # ---- Galerkin projection
    n, m = dim('basis_vec_handles'), dim('adjoint_basis_vec_handles')
    add('unequal numbers of basis and adjoint basis vectors', 'ltigalerkinproj.LTIGalerkinProjectionHandles.__init__',
        new_case('ltigalerkinproj.LTIGalerkinProjectionHandles', [('inner_product', S('ip'))], ['basis_vec_handles', 'adjoint_basis_vec_handles'], 'mpiN'),
        {S('basis_vec_handles'): lst('basis_vec_handles'), S('adjoint_basis_vec_handles'): lst('adjoint_basis_vec_handles')}, unequal(n, m), 'ValueError', pos=[n - ONE, m - ONE])
    d = lambda k, x: dim(x, k)
    B, Ad = 'basis_vecs', 'adjoint_basis_vecs'
    add('basis and adjoint basis arrays of different shapes', 'ltigalerkinproj.LTIGalerkinProjectionArrays.__init__',
        new_case('ltigalerkinproj.LTIGalerkinProjectionArrays', [], [B, Ad]), {S(B): Inp(B, 2), S(Ad): Inp(Ad, 2)},
        unequal(d(1, B), d(1, Ad)) + [u + [d(1, B) - d(1, Ad), d(1, Ad) - d(1, B)] for u in unequal(d(0, B), d(0, Ad))], 'ValueError', pos=[d(i, x) - ONE for i in (0, 1) for x in (B, Ad)])
    v, a, w = 'vec_handles', 'adv_vec_handles', 'deriv_vec_handles'
    ins = {S(x): lst(x) for x in (v, a, w)}
    add('unequal numbers of vectors, advanced vectors and derivatives', 'ltigalerkinproj.compute_derivs_handles', func_case('ltigalerkinproj.compute_derivs_handles', [], [v, a, w, 'dt'], 'mpiN'), ins,
        unequal(dim(v), dim(a)) + [u + [dim(v) - dim(a), dim(a) - dim(v)] for u in unequal(dim(v), dim(w))], 'RuntimeError', pos=[dim(x) - ONE for x in (v, a, w)])

    # ---- system identification
    i, o = 'inputs', 'outputs'
    for ni in (1, 2):
        for no in (1, 2):
            add('unequal numbers of input and output samples (%d-D and %d-D)' % (ni, no), 'okid.OKID', func_case('okid.OKID', [], [i, o, 'num_Markovs'], prims={}),
                {S(i): Inp(i, ni), S(o): Inp(o, no), S('num_Markovs'): Poly.atom('num_Markovs')}, unequal(dim(i, ni - 1), dim(o, no - 1)), 'ValueError',
                pos=[dim(i, k) - ONE for k in range(ni)] + [dim(o, k) - ONE for k in range(no)] + [Poly.atom('num_Markovs') - ONE])
    t, M = 'times', 'Markovs'
    add('different numbers of times and Markov parameters', 'era.make_sampled_format', func_case('era.make_sampled_format', [], [t, M]), {S(t): Inp(t, 1), S(M): Inp(M, 3)},
        unequal(dim(t), dim(M, 0)), 'RuntimeError', pos=[dim(t) - K(2), dim(M, 0) - K(2), dim(M, 1) - ONE, dim(M, 2) - ONE])
    for nd in (4, 5):
        add('Markov parameters with %d dimensions' % nd, 'era.ERA.compute_model', meth_case('era.ERA', 'compute_model', [], [M, 'num_states'], opened=False, world='nompi'),
            {S(M): Inp(M, nd), S('num_states'): Poly.atom('ns')}, [[]], ('RuntimeError', 'ValueError'), pos=[dim(M, k) - ONE for k in range(nd)] + [Poly.atom('ns') - ONE])
    h = Poly.atom('h')
    for par in (0, 1):
        mc, mo = Poly.atom('mc'), Poly.atom('mo')
        add('sizes mc and mo that need more samples than there are', 'era.ERA.compute_model', meth_case('era.ERA', 'compute_model', [], [M, 'num_states', 'mc', 'mo'], opened=False, world='nompi'),
            {S(M): Inp(M, 3), S('num_states'): Poly.atom('ns'), S('mc'): mc, S('mo'): mo}, [[(mc + mo) * K(2) - h - h - K(3)]], 'ValueError', decide=None,
            pos=[dim(M, 0) - h - h - K(par), h + h + K(par) - dim(M, 0), h - ONE, mc - ONE, mo - ONE, dim(M, 1) - ONE, dim(M, 2) - ONE])

    # ---- files
    for nd in (3, 4):
        add('an array with %d dimensions' % nd, 'util.save_array_text', func_case('util.save_array_text', [], ['array', 'file_name'], prims={}), {S('array'): Inp('array', nd)}, [[]],
            ('RuntimeError', 'ValueError'), pos=[dim('array', k) - ONE for k in range(nd)])
    for nd in (0, 3):
        add('weights with %d dimensions' % nd, 'vectorspace.VectorSpaceArrays.__init__', new_case('vectorspace.VectorSpaceArrays', [], ['weights']), {S('weights'): Inp('weights', nd)}, [[]],
            'ValueError', pos=[dim('weights', k) - K(2) for k in range(nd)])
    add('an unknown scaling choice', 'util.eig_biorthog', func_case('util.eig_biorthog', [('scale_choice', const('neither'))], ['array'], prims={}),
        {S('array'): Inp('array', 2)}, [[]], 'ValueError', pos=[dim('array', 0) - ONE, dim('array', 1) - dim('array', 0), dim('array', 0) - dim('array', 1)])
    TR = 'vectors.InnerProductTrapz'
    add('no grids', TR + '.__init__', new_case(TR, [], []), {}, [[]], 'ValueError')
    for n in (1, 2, 3):
        g = ['grid%d' % k for k in range(n)]
        ins = {S(x): Inp(x, 1) for x in g}
        vs = ['vec1', 'vec2']
        for nd in (n, n + 1) if n > 1 else (n, 2, 3):
            ins2 = dict(ins)
            ins2.update({S(v): Inp(v, nd) for v in vs})
            pos = [dim(x) - K(2) for x in g] + [dim(v, k) - K(2) for v in vs for k in range(nd)]
            same = lambda v, ks: [f for k in ks for f in (dim(v, k) - dim(g[k]), dim(g[k]) - dim(v, k))]
            run = trapz_case(TR, g, vs)
            if nd != n:
                add('%d-D vectors on %d grids' % (nd, n), TR + '.__call__', run, ins2, [[]], ('TypeError', 'ValueError'), pos=pos)
                continue
            for v in vs:
                w = [x for x in vs if x != v][0]
                for k in range(n):
                    add('a vector whose shape is not that of the grids (%d grids)' % n, TR + '.__call__', run, ins2,
                        [u + same(v, [j for j in range(n) if j != k]) + same(w, range(n)) for u in unequal(dim(v, k), dim(g[k]))], ('TypeError', 'ValueError'), pos=pos)
            if n == 2:
                for v in vs:
                    w = [x for x in vs if x != v][0]
                    tr = [f for a, b in ((0, 1), (1, 0)) for f in (dim(v, a) - dim(g[b]), dim(g[b]) - dim(v, a))]
                    add('a vector of the transposed shape', TR + '.__call__', run, ins2, [u + tr + same(w, range(n)) for u in unequal(dim(g[0]), dim(g[1]))], ('TypeError', 'ValueError'), pos=pos)
            add('vectors shaped like the grids (%d grids)' % n, TR + '.__call__', run, ins2, [same('vec1', range(n)) + same('vec2', range(n))], (), pos=pos, bad=False)
    return out


def fresh(cl, meth):
    """On a new object whose decomposition arrays were loaded, with no vectors."""
    def run():
        pk = package('mpiN')
        r = Run(pk, lambda t: nonone(t), dict(PRIMS))
        o = r.new(cl, [], [('inner_product', sym('inner_product'))])
        if not r.st.alive:
            raise Undecided('the constructor raises')
        c = r.an.objcls[o.args[0]]
        g, _ = c.lookup('get_decomp')
        if g is not None and g.op == 'fn':
            a = g.args[0].node.args
            r.method(o, 'get_decomp', [sym('src%d' % k) for k in range(len(a.args) - 1)])
        n0 = 1 + max([e.seq for e in r.events] or [-1])
        w, _ = c.lookup(meth)
        if w is None or w.op != 'fn':
            raise Undecided('%s.%s not found' % (cl, meth))
        r.method(o, meth, [sym('mode_indices'), sym('mode_handles')])
        return r, n0, floc(w.args[0])
    return run


@prop('S03', 'evaluation of every raise condition and preceding effect at symbolic sizes under each documented inconsistency', NOTE)
def s03(c):
    c.rule('rejects', 'the inconsistency raises an exception')
    c.rule('exception', 'the exception is of the documented kind')
    c.rule('effects', 'no vector or file is written and no message exchanged before')
    c.rule('accepts', 'consistent input is not rejected')
    n = {}
    for case in cases():
        key = '%s: %s' % (case.construct, case.name)
        n[key] = n.get(key, 0) + 1
        c.ob(key + (' (%d)' % n[key] if n[key] > 1 else ''), check_case, c, case)
