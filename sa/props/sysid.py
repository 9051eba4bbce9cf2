"""N08 (ERA), N09 (OKID) and N20 (balanced truncation)."""
from ..elemcheck import *
from ..report import prop
from ..numrun import floc, compare, PRIMS
from ..interp import mkindex
from .. import la
from ..la import Algebra, Conv, Unknown
from .elementwise import dim, nonone, strip_arr

NOTE = ('Element-wise semantics of the assembled arrays and linear-algebra normal forms of the model matrices, for all dimensions and data; exact arithmetic. '
        'Trusts numpy, the Lyapunov and least-squares solvers.')


# ------------------------------------------------------------------ N20
@prop('N20', 'linear-algebra normal forms of the returned matrices, compared with the balancing transformation of the two Gramians', NOTE)
def n20(c):
    c.rule('definition', 'Gramian equations, balancing transformation, projected model, Hankel singular values')
    for order in (True, False):
        for sv in (True, False):
            c.ob('balanced_truncation order=%s sing_vals=%s' % (order, sv), balanced, c, order, sv)


def balanced(c, order, sv):
    pkg = package('nompi')
    q = 'util.balanced_truncation'
    f = pkg.func(q)
    if f is None:
        raise Undecided('not found')

    def assume(t):
        return nonone(t)
    r = Run(pkg, assume, {'util.svd': True})
    v = r.deep(r.call(q, [sym('A'), sym('B'), sym('C')], [('order', sym('order') if order else NONE), ('return_sing_vals', const(sv))]))
    if not r.st.alive:
        raise Undecided('always raises')
    A = Algebra(hermitian=['Wc', 'Wo'])
    cv = Conv(A, {sym(n): A.inp(n) for n in 'ABC'}, decide=assume)
    gr = {}
    for t in walk(v):
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith('scipy.linalg.solve_') and 'lyapunov' in t.args[0].args[0]:
            n = t.args[0].args[0]
            if not n.endswith('solve_discrete_lyapunov'):
                c.violate('definition', 'balanced_truncation', floc(f), 'the Gramians of the discrete-time model are computed with %s' % n)
                return False
            a, qq = t.args[1][:2]
            try:
                a, qq = cv.mat(a), cv.mat(qq)
            except Unknown as e:
                raise Undecided(e)
            gr[t] = (a, qq)
    names = {}
    Am, B, C = A.inp('A'), A.inp('B'), A.inp('C')
    want = {'Wc': (Am, A.prod(B, A.H(B))), 'Wo': (A.H(Am), A.prod(A.H(C), C))}
    for t, (a, qq) in gr.items():
        for n, (wa, wq) in want.items():
            if a.key() == wa.key() and qq.key() == wq.key():
                names[n] = t
                break
        else:
            c.violate('definition', 'balanced_truncation', floc(f), 'a Lyapunov equation with A=%r, Q=%r is neither Gramian of the model' % (a, qq))
            return False
    if set(names) != {'Wc', 'Wo'}:
        raise Undecided('Gramians not found: %s' % sorted(names))
    cv = Conv(A, dict([(sym(n), A.inp(n)) for n in 'ABC'] + [(names[n], A.inp(n)) for n in names]), decide=assume)
    hf = Fraction(1, 2)
    Uc, Ec, _ = A.svd(A.inp('Wc'))
    Uo, Eo, _ = A.svd(A.inp('Wo'))
    Lc = A.mul(Uc, A.diag(A.powv(Ec, hf)))
    Lo = A.mul(Uo, A.diag(A.powv(Eo, hf)))
    U, E, V = A.svd(A.mul(A.H(Lo), Lc))
    s = A.sel(':order') if order else A.ident()
    Er = A.selv(E, ':order') if order else E
    D = A.diag(A.powv(Er, -hf))
    SL, SR = A.prod(Lo, U, s, D), A.prod(Lc, V, s, D)
    spec = [A.prod(A.H(SL), Am, SR), A.prod(A.H(SL), B), A.prod(C, SR)] + ([E] if sv else [])
    if v.op != 'tuple':
        raise Undecided('result %s' % show(v, 4))
    if len(v.args[0]) != len(spec):
        c.violate('definition', 'balanced_truncation', floc(f), 'returns %d values, %d expected' % (len(v.args[0]), len(spec)))
        return False
    for k, (t, s) in enumerate(zip(v.args[0], spec)):
        compare(c, 'balanced_truncation result %d order=%s' % (k, order), 'balanced_truncation', floc(f), A, cv, t, s, ['the reduced A', 'the reduced B', 'the reduced C', 'the Hankel singular values'][k])


# ------------------------------------------------------------------ N08
@prop('N08', 'element-wise semantics of the Hankel arrays; linear-algebra normal forms of A, B, C', NOTE)
def n08(c):
    c.rule('Hankel', 'block (i, j) is the Markov parameter of sample 2(i+j) (first array) and 2(i+j)+1 (second)')
    c.rule('model', 'A, B, C are the ERA formulas of the leading singular triplets of the first array')
    for nd in (3, 2, 1):
        for sizes in SIZES:
            c.ob('ERA Hankel arrays %d-D %s' % (nd, sizes), era_hankel, c, nd, sizes)
    c.ob('ERA model', era_model, c)
    c.ob('compute_ERA_model', era_function, c)


# which of mc and mo are given where: (constructor, call)
SIZES = {'given': ('', ('mc', 'mo')), 'default': ('', ''), 'constructor': (('mc', 'mo'), ''), 'overriding': (('mc0', 'mo0'), ('mc', 'mo')),
         'mc alone': ('', ('mc',)), 'mo alone': ('', ('mo',)), 'constructor mc alone': (('mc',), ''), 'mo and constructor mc': (('mc',), ('mo',))}


def new_era(c, sizes):
    pkg = package('nompi')
    r = Run(pkg, era_assume, dict(PRIMS))
    first, then = SIZES[sizes]
    o = r.new('era.ERA', [], [(x.rstrip('0'), sym(x)) for x in first])
    if not r.st.alive:
        raise Undecided('constructor raises')
    args = [sym('Markovs'), sym('num_states')]
    cl = r.an.objcls[o.args[0]]
    w, _ = cl.lookup('compute_model')
    f = w.args[0]
    names = [x.arg for x in f.node.args.args][1:]
    if names[:2] != ['Markovs', 'num_states'] or not {'mc', 'mo'} <= set(names):
        raise Undecided('signature of compute_model')
    v = r.deep(r.method(o, 'compute_model', args[:2], [(x, sym(x)) for x in then]))
    if not r.st.alive:
        raise Undecided('compute_model always raises')
    return r, o, f, v


def era_assume(t):
    return nonone(t)


def hankel_loc(r, o):
    cl = r.an.objcls[o.args[0]]
    w, _ = cl.lookup('_assemble_Hankel')
    if w is not None and w.op == 'fn':
        return floc(w.args[0])
    return '%s:%d' % (cl.module.path, cl.node.lineno)


def era_hankel(c, nd, sizes, given=None):
    """given: (run, function, {name: term}) of another way to the two arrays."""
    if given:
        r, f, arrays = given
    else:
        r, o, f, v = new_era(c, sizes)
        arrays = {n: r.attr(o, n) for n in ('Hankel_array', 'Hankel_array2')}
    N = dim('Markovs', 0)
    p = dim('Markovs', 1) if nd >= 2 else ONE
    q = dim('Markovs', 2) if nd >= 3 else ONE
    i, j, a, b = ivar('i'), ivar('j'), ivar('a'), ivar('b')

    def decide(t):
        return era_assume(t)

    def ev(fx):
        return Ev({sym('Markovs'): Inp('Markovs', nd), sym('mc'): Poly.atom('mc'), sym('mo'): Poly.atom('mo'), sym('mc0'): Poly.atom('mc0'), sym('mo0'): Poly.atom('mo0'), sym('num_states'): Poly.atom('ns')}, fx,
                  decide=decide, loops=r.an.loops, hints=[i, j, i + j])
    h = Poly.atom('h')      # number of pairs of samples
    for par in (0, 1):
        facts = [h - ONE, dim('Markovs', 1) - ONE, dim('Markovs', 2) - ONE] + rng(a, p) + rng(b, q)
        facts += [N - h - h - K(par), h + h + K(par) - N]
        have = set(SIZES[sizes][0]) | set(SIZES[sizes][1])
        mo, mc = Poly.atom('mo'), Poly.atom('mc')
        if {'mc', 'mo'} <= have:
            facts += [mo - ONE, mc - ONE, N - (mo + mc) * K(2) + K(2) - K(par)]
            shape = [mo * p, mc * q]
            facts += rng(i, mo) + rng(j, mc)
        else:
            # default size s
            s = floordiv_atom(N, par, h)
            facts += [s - ONE, h + h - K(2) - s * K(4), s * K(4) + K(3) - h - h + K(2)]
            if 'mc' in have or 'mo' in have:
                mo, mc = (s, mc) if 'mc' in have else (mo, s)
                facts += [mo - ONE, mc - ONE, N - (mo + mc) * K(2) + K(2) - K(par)] + rng(i, mo) + rng(j, mc)
                shape = [mo * p, mc * q]
            else:
                # default size, block rows and columns alike
                shape = [s * p, s * q]
                facts += [i, j] + [s - i - ONE, s - j - ONE]
        for name, off in (('Hankel_array', 0), ('Hankel_array2', 1)):
            def spec(e, ix):
                idx = [(i + j) * K(2) + K(off)] + ([a] if nd >= 2 else []) + ([b] if nd >= 3 else [])
                return elem('Markovs', idx)

            def evs(fx):
                e = ev(fx)
                e.hook = default_hook(None if {'mc', 'mo'} <= have else s)
                return e
            if arrays.get(name) is None:
                continue
            compare_arr(c, '%s.%s %d-D, %s sizes, %s number of samples' % ('compute_ERA_model' if given else 'ERA', name, nd, sizes, 'odd' if par else 'even'),
                        'compute_ERA_model' if given else 'ERA.%s' % name, floc(f) if given else hankel_loc(r, o), evs, arrays[name], shape, [i * p + a, j * q + b], spec, {'Markovs', 'mc', 'mo', 's', 'mc0', 'mo0'}, name, facts, rule='Hankel')


def floordiv_atom(N, par, h):
    return Poly.atom('s')


def default_hook(s):
    """(2h-2)//4 is the size s by the facts."""
    def hook(ev, t):
        if s is not None and t.op == 'bin' and t.args[0] == '//' and t.args[2] is const(4):
            x = ev.num(t.args[1])
            d = x - s * K(4)
            if ev.facts.ge(d) and ev.facts.ge(K(3) - d):
                return s
        if t.op == 'bin' and t.args[0] == '%' and t.args[2] is const(2):
            return parity(ev, t)
        return None
    return hook


def parity(ev, t):
    x = ev.num(t.args[1])
    h = Poly.atom('h')
    for k in (0, 1):
        if ev.facts.eq(x, h + h + K(k)) is True:
            return K(k)
    return None


def era_model(c):
    r, o, f, v = new_era(c, 'given')
    for e in r.events:
        if e.kind == 'prim' and e.d['qual'] == 'util.svd' and truncates(c, 'ERA.compute_model', e, {'atol': 1e-10, 'rtol': 1e-10}, e.d['args']):
            return False
    H, H2 = r.attr(o, 'Hankel_array'), r.attr(o, 'Hankel_array2')
    A = Algebra()
    ni, nm = r.attr(o, 'num_inputs'), r.attr(o, 'num_Markovs')
    inputs = {H: A.inp('H'), H2: A.inp('H2')}
    sub = {}
    if ni.op not in ('const',):
        sub[ni] = sym('num_inputs')
    if nm.op not in ('const',):
        sub[nm] = sym('num_Markovs')
    hf = Fraction(1, 2)
    U, S, V = A.svd(A.inp('H'))
    n = ':num_states'
    s = A.sel(n)
    D = A.diag(A.powv(A.selv(S, n), -hf))
    Dp = A.diag(A.powv(A.selv(S, n), hf))
    spec = {'A': A.prod(D, A.H(A.mul(U, s)), A.inp('H2'), V, s, D),
            'B': A.prod(Dp, A.H(A.mul(V, s)), A.sel(':num_inputs')),
            'C': A.prod(A.tr(A.sel(':num_Markovs')), U, s, Dp)}
    sub2 = dict(sub)
    sub2[H] = sym('H')
    sub2[H2] = sym('H2')
    cv = Conv(A, {sym('H'): A.inp('H'), sym('H2'): A.inp('H2')}, decide=era_assume)
    loc = floc(f)
    if v.op != 'tuple' or len(v.args[0]) != 3:
        raise Undecided('result %s' % show(v, 3))
    for k, nme in enumerate('ABC'):
        compare(c, 'ERA.compute_model result %s' % nme, 'ERA.compute_model', loc, A, cv, subst(v.args[0][k], sub2), spec[nme], 'the ERA formula of %s' % nme, rule='model')
        compare(c, 'ERA.%s' % nme, 'ERA.compute_model', loc, A, cv, subst(r.attr(o, nme), sub2), spec[nme], 'the ERA formula of %s' % nme, rule='model')
    for nme, x in (('L_sing_vecs', U), ('sing_vals', S), ('R_sing_vecs', V)):
        compare(c, 'ERA.%s' % nme, 'ERA.compute_model', loc, A, cv, subst(r.attr(o, nme), sub2), x, 'the full factor of the first Hankel array', rule='model')
    # saving
    n0 = len(r.events)
    r.setattr(o, 'put_array', sym('put_array'))
    vals = {n_: r.attr(o, n_) for n_ in ('A', 'B', 'C', 'Hankel_array', 'Hankel_array2', 'L_sing_vecs', 'sing_vals', 'R_sing_vecs')}
    for meth, order in (('put_model', ['A', 'B', 'C']), ('put_decomp', ['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'Hankel_array2'])):
        n0 = len(r.events)
        r.method(o, meth, [sym('d_' + x) for x in order])
        got = {}
        for e in r.events[n0:]:
            if e.kind == 'call' and e.d['func'] is sym('put_array') and len(e.d['args']) == 2:
                got[e.d['args'][1]] = (r.deep(e.d['args'][0]), e)
        if not got:
            raise Undecided('%s: nothing saved' % meth)
        for x in order:
            g = got.get(sym('d_' + x))
            if g is None:
                c.violate('model', 'ERA.%s' % meth, loc, '%s does not save %s' % (meth, x))
            elif g[0] is not vals[x]:
                c.violate('model', 'ERA.%s' % meth, g[1].loc, '%s saves %s in place of %s' % (meth, show(g[0], 3), x))


def truncates(c, who, e, limits, args):
    """A tolerance fixed in the code that discards significant data."""
    for k, top in limits.items():
        t = args.get(k)
        if t is not None and t.op == 'const' and isinstance(t.args[0], (int, float)) and t.args[0] is not True and t.args[0] > top:
            c.violate('model', who, where(e) if not isinstance(e, str) else e, '%s=%r discards significant singular values, whatever the caller asked for' % (k, t.args[0]))
            return True
    return False


def era_function(c):
    pkg = package('nompi')
    f = pkg.func('era.compute_ERA_model')
    if f is None:
        raise Undecided('not found')
    r = Run(pkg, era_assume, dict(PRIMS))
    v = r.deep(r.call('era.compute_ERA_model', [sym('Markovs'), sym('num_states')]))
    r2, o, f2, v2 = new_era(c, 'default')
    # equal up to the identity of the loops: compare through the algebra
    if v.op != 'tuple' or len(v.args[0]) != 3:
        raise Undecided('result %s' % show(v, 3))
    sv = [t for t in walk(v) if t.op == 'prim' and t.args[0] == 'util.svd']
    if len(set(sv)) != 1:
        raise Undecided('%d factorisations' % len(set(sv)))
    hs = dict(sv[0].args[1])['array']
    if hs.op != 'loopout':
        raise Undecided('factorised array %s' % show(hs, 3))
    A = Algebra()
    others = set()
    # the other Hankel array: the loop result that is not hs and multiplies the factors in A
    for t in walk(v.args[0][0]):
        if t.op == 'loopout' and t is not hs and t.args[0] == hs.args[0]:
            others.add(t)
    if len(others) != 1:
        raise Undecided('second Hankel array not found')
    sub2 = {hs: sym('H'), list(others)[0]: sym('H2')}
    for nd in (3, 2, 1):
        era_hankel(c, nd, 'default', (r, f, {'Hankel_array': hs, 'Hankel_array2': list(others)[0]}))
    cv = Conv(A, {sym('H'): A.inp('H'), sym('H2'): A.inp('H2')}, decide=era_assume)
    hf = Fraction(1, 2)
    U, S, V = A.svd(A.inp('H'))
    s = A.sel(':num_states')
    D = A.diag(A.powv(A.selv(S, ':num_states'), -hf))
    compare(c, 'compute_ERA_model A', 'compute_ERA_model', floc(f), A, cv, subst(v.args[0][0], sub2), A.prod(D, A.H(A.mul(U, s)), A.inp('H2'), V, s, D), 'the ERA formula of A', rule='model')


# ------------------------------------------------------------------ N09
@prop('N09', 'element-wise semantics of the data array, of the least-squares arguments, of the observer blocks and of the recursion step', NOTE)
def n09(c):
    c.rule('data', 'row block 0 holds the inputs, row block i the inputs and outputs delayed by i samples, zero before')
    c.rule('least-squares', 'the observer parameters solve outputs = parameters * data')
    c.rule('recursion', 'parameter k = input block k - sum over i=1..k of output block i times parameter k-i, output block i = minus the block read')
    for ni, no in ((2, 2), (1, 2), (2, 1), (1, 1)):
        c.ob('OKID %d-D inputs, %d-D outputs' % (ni, no), okid, c, ni, no)


def okid(c, ni=2, no=2):
    pkg = package('nompi')
    f = pkg.func('okid.OKID')
    if f is None:
        raise Undecided('not found')
    def assume(t):
        for n, d in (('inputs', ni), ('outputs', no)):
            x = t.args[1] if t.op == 'cmp' and t.args[2].op == 'const' else None
            if x is not None and x.op == 'attr' and x.args[1] == 'ndim' and strip_arr(x.args[0]) is sym(n):
                k = t.args[2].args[0]
                return {'==': d == k, '<': d < k}.get(t.args[0])
        return None
    r = Run(pkg, assume)
    v = r.deep(r.call('okid.OKID'))
    if not r.st.alive:
        raise Undecided('always raises')
    loc = floc(f)
    tag = 'OKID %d-D/%d-D' % (ni, no)
    p, q, N, M = Poly.atom('p'), Poly.atom('q'), Poly.atom('N'), Poly.atom('M')     # inputs, outputs, samples, Markov parameters
    if ni == 1:
        p = ONE
    if no == 1:
        q = ONE
    base = [p - ONE, q - ONE, N - ONE, M - ONE, N - M - ONE]

    def el(name, idx, cj=''):
        return elem(name, idx[1:] if {'inputs': ni, 'outputs': no}[name] == 1 else idx, cj)
    names = {'inputs', 'outputs', 'X', 'p', 'q', 'N', 'M', 'H'}
    i, k, a, b, t_ = ivar('i'), ivar('k'), ivar('a'), ivar('b'), ivar('t')
    ls = {x for x in walk(v) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.linalg.lstsq', 'scipy.linalg.lstsq')}
    if len(ls) != 1:
        raise Undecided('%d least-squares problems' % len(ls))
    ls, = ls
    W = p + (p + q) * M
    if truncates(c, 'OKID', loc, {'rcond': 1e-10, 'cond': 1e-10}, dict(ls.args[2], **({'rcond': ls.args[1][2]} if len(ls.args[1]) > 2 else {}))):
        return False

    def hook(ev, t):
        if t is ls:
            return (Arr([W, q], lambda ix: elem('X', ix)), Opq('res'), Opq('rank'), Opq('sv'))
        return None

    def ev(fx, extra=None):
        d = {sym('inputs'): Inp('inputs', ni, dims=[p, N][2 - ni:]), sym('outputs'): Inp('outputs', no, dims=[q, N][2 - no:]), sym('num_Markovs'): M}
        d.update(extra or {})
        return Ev(d, fx, loops=r.an.loops, hints=[i, i - ONE, i + ONE, k, k - ONE], hook=hook)
    # data array (conjugate transposed: the columns are the unknowns)
    VH, YH = ls.args[1][:2]
    tt = rng(t_, N)
    compare_arr(c, tag + ' data, current inputs', 'OKID', loc, ev, VH, [N, W], [t_, a], lambda e, x: el('inputs', [a, t_], 'C'), names, 'the data array',
                base + rng(a, p) + tt, rule='data')
    row0 = p + (i - ONE) * (p + q)

    def delayed(nm, ix):
        def sp(e, x):
            return el(nm, [ix, t_ - i], 'C') if e.ge(t_ - i) else ZERO
        return sp
    compare_arr(c, tag + ' data, delayed inputs', 'OKID', loc, ev, VH, None, [t_, row0 + a], delayed('inputs', a), names, 'the data array',
                base + rng(a, p) + tt + [i - ONE, M - i], rule='data')
    compare_arr(c, tag + ' data, delayed outputs', 'OKID', loc, ev, VH, None, [t_, row0 + p + a], delayed('outputs', a), names, 'the data array',
                base + rng(a, q) + tt + [i - ONE, M - i], rule='data')
    compare_arr(c, tag + ' right-hand side', 'OKID', loc, ev, YH, [N, q], [t_, a], lambda e, x: el('outputs', [a, t_], 'C'), names, 'the right-hand side',
                base + rng(a, q) + tt, rule='least-squares')
    # recursion
    if v.op != 'loopout':
        raise Undecided('result %s' % show(v, 4))
    L = r.an.loops.get(v.args[0])
    if L is None or L.kind != 'for' or L.breaks or L.returns or L.continues:
        raise Undecided('recursion loop')
    init, back = v.args[2], v.args[3]
    mu = mk('mu', v.args[0], v.args[1])
    lid = v.args[0]
    rec = Arr([M, q, p], lambda ix: elem('H', ix))

    # a single output or input has index 0
    a = ZERO if no == 1 else a
    b = ZERO if ni == 1 else b

    # parameters before the loop: parameter 0 is D = block 0 of the observer parameters
    def D(x, y):
        return elem('X', [y, x], 'C')
    compare_arr(c, tag + ' parameter 0', 'OKID', loc, ev, init, [M, q, p], [ZERO, a, b], lambda e, x: D(a, b), names, 'parameter 0',
                base + rng(a, q) + rng(b, p), rule='recursion')
    facts = base + rng(a, q) + rng(b, p)
    # which parameter an iteration writes
    lv = mk('lv', lid, L.count)

    def at(it):
        def mkev(fx):
            e = ev(fx, {})
            e.env[lid] = it
            e.mus[mu] = rec
            return e
        return mkev
    # iterations cover k = 1..M-1 each once: iteration number it = k - 1
    fx = Facts(base + [M - K(2)])
    n = ev(fx).num(L.count) if not isinstance(L.count, Poly) else L.count
    if n != M - ONE:
        if foreign(n, names) is None:
            # a loop from 0 is the same when the first pass rewrites parameter 0 from itself
            if n != M:
                c.violate('recursion', 'OKID', loc, 'the recursion makes %r steps instead of %r' % (n, M - ONE))
                return False
        raise Undecided('recursion over %r steps' % (n,))
    it = k - ONE
    fk = facts + [k - ONE, M - ONE - k]
    V_ = fresh('i')
    o = q
    def spec(e, x):
        # input block k: columns p + (k-1)(p+q) + b of the parameters
        inp = elem('X', [p + (k - ONE) * (p + q) + b, a], 'C')
        u = Poly.atom(V_)
        m = Poly.atom(fresh('m'))
        (ma,), = m.d.keys()
        # output block i: minus columns p + (i-1)(p+q) + p + m, i = u+1
        term = mulp(elem('X', [p + u * (p + q) + p + m, a], 'C').scale(-1), elem('H', [k - u - ONE, m, b]))
        s = mksum(V_, k, mksum(ma, q, term))
        return inp - s
    compare_arr(c, tag + ' parameter k', 'OKID', loc, at(it), back, None, [k, a, b], spec, names, 'parameter k', fk, rule='recursion')
    # and leaves the others alone
    j = ivar('j')
    compare_arr(c, tag + ' other parameters', 'OKID', loc, at(it), back, None, [j, a, b], lambda e, x: elem('H', [j, a, b]), names, 'a parameter before k',
                fk + [j, k - ONE - j], rule='recursion')
