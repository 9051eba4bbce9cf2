"""N14 (Hankel builders), N15 (inner products), N16 (sampled format), N17 (derivatives), N18 (simulation helpers)."""
from ..elemcheck import *
from ..report import prop
from ..numrun import floc
from ..interp import mkindex

NOTE = ('Symbolic element-wise semantics of the returned array, for all lengths, block shapes and element values; index questions decided by '
        'integer linear/polynomial arithmetic. Trusts the modelled numpy functions and exact arithmetic.')


def run1(q, given=None, assume=None, args=None):
    pkg = package('nompi')
    f = pkg.func(q)
    if f is None:
        raise Undecided('%s not found' % q)
    r = Run(pkg, assume)
    v = r.call(q, args, given=given)
    if not r.st.alive:
        raise Undecided('%s always raises' % q)
    return r, f, r.deep(v)


def no_other_effects(r):
    pass


def dim(n, k=0):
    return Poly.atom(('dim', n, k))


# ------------------------------------------------------------------ N14
@prop('N14', 'element-wise semantics of the returned (block) array, compared at symbolic row, column and position inside the block', NOTE)
def n14(c):
    c.rule('definition', 'element (i, j) is element i+j of first column followed by the last row without its first element')
    for given in (True, False):
        c.ob('Hankel last_row=%s' % given, hankel, c, given)
        c.ob('Hankel_chunks last_row=%s' % given, hankel_chunks, c, given)


def hankel(c, given):
    r, f, v = run1('util.Hankel', {} if given else {'last_row': NONE})
    i, j = ivar('i'), ivar('j')
    n = dim('first_col')
    m = dim('last_row') if given else n
    facts = [n - ONE, m - ONE] + rng(i, n) + rng(j, m)

    def ev(fx):
        return Ev({sym('first_col'): Inp('first_col', 1), sym('last_row'): Inp('last_row', 1)}, fx, decide=nonone, loops=r.an.loops,
                  hints=[i, j, i + j], hook=ogrid_hook)

    def spec(e, ix):
        if e.lt(i + j, n):
            return elem('first_col', [i + j])
        return elem('last_row', [i + j - n + ONE]) if given else ZERO
    compare_arr(c, 'Hankel (last row %sgiven)' % ('' if given else 'not '), 'Hankel', floc(f), ev, v, [n, m], [i, j], spec,
                {'first_col', 'last_row'}, 'the Hankel array', facts, cases=([n - m, m - n], [n - m - ONE], [m - n - ONE]))


def nonone(t):
    if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and t.args[1].op == 'sym':
        return False
    return None


def hankel_chunks(c, given):
    r, f, v = run1('util.Hankel_chunks', {} if given else {'last_row_chunks': NONE})
    i, j, a, b = ivar('i'), ivar('j'), ivar('a'), ivar('b')
    p, q = Poly.atom('p'), Poly.atom('q')
    n = dim('first_col_chunks')
    m = dim('last_row_chunks') if given else n
    facts = [n - ONE, m - ONE, p - ONE, q - ONE] + rng(i, n) + rng(j, m) + rng(a, p) + rng(b, q)

    def chunks(name):
        return Lst(dim(name), lambda k: Arr([p, q], lambda ix: elem(name, [k] + list(ix))))

    def ev(fx):
        return Ev({sym('first_col_chunks'): chunks('first_col_chunks'), sym('last_row_chunks'): chunks('last_row_chunks')}, fx, decide=nonone,
                  loops=r.an.loops, hints=[i, j, i + j], hook=ogrid_hook)

    def spec(e, ix):
        if e.lt(i + j, n):
            return elem('first_col_chunks', [i + j, a, b])
        return elem('last_row_chunks', [i + j - n + ONE, a, b]) if given else ZERO
    compare_arr(c, 'Hankel_chunks (last row %sgiven)' % ('' if given else 'not '), 'Hankel_chunks', floc(f), ev, v, [n * p, m * q], [i * p + a, j * q + b], spec,
                {'first_col_chunks', 'last_row_chunks'}, 'the block Hankel array', facts,
                cases=([n - m, m - n], [n - m - ONE], [m - n - ONE]))


# ------------------------------------------------------------------ N16
@prop('N16', 'element-wise semantics of both returned arrays at even and odd positions; path analysis of the rejected inputs', NOTE)
def n16(c):
    c.rule('definition', 'positions 2k and 2k+1 hold samples k and k+1')
    c.rule('rejects', 'unequal lengths and unequal spacing raise before a result is produced')
    c.ob('make_sampled_format', sampled, c)
    c.ob('make_sampled_format rejects', sampled_raises, c)


def sampled(c):
    r, f, v = run1('era.make_sampled_format')
    k, u, w = ivar('k'), ivar('u'), ivar('w')
    T0 = dim('Markovs', 0)
    facts = [T0 - K(2), dim('Markovs', 1) - ONE, dim('Markovs', 2) - ONE] + rng(k, T0 - ONE) + rng(u, dim('Markovs', 1)) + rng(w, dim('Markovs', 2))
    if len(f.node.args.args) < 2:
        raise Undecided('signature')

    def ev(fx):
        return Ev({sym('times'): Inp('times', 1, real=True, dims=[T0]), sym('Markovs'): Inp('Markovs', 3)}, fx, loops=r.an.loops, hints=[k, k + ONE], decide=nonone)
    half = T0 + T0 - K(2)
    t0, dt = elem('times', [ZERO], 'R'), elem('times', [ONE], 'R') - elem('times', [ZERO], 'R')
    names = {'times', 'Markovs'}
    for par in (0, 1):
        ix = k + k + K(par)
        compare_arr(c, 'Markov parameters at 2k+%d' % par, 'make_sampled_format', floc(f), ev, mkindex(v, const(1)),
                    [half, dim('Markovs', 1), dim('Markovs', 2)], [ix, u, w], lambda e, i: elem('Markovs', [k + K(par), u, w]), names, 'the returned Markov array', facts)

        def tspec(e, i):
            step = mulp(elem('times', [k + K(par)], 'R') - t0, recip(dt))
            return Poly.atom(('app', 'round', (step,)))
        compare_steps(c, f, ev, mkindex(v, const(0)), [half], ix, k + K(par), facts, names, t0, dt, par)


def compare_steps(c, f, ev, v, shape, ix, n, facts, names, t0, dt, par):
    """Time step of sample n: (times[n]-times[0])/dt, rounded, or n itself."""
    def go():
        try:
            for fx, (kind, msg) in cells(facts, one):
                if kind == 'bad':
                    c.violate('definition', 'make_sampled_format', floc(f), msg)
                    return False
        except Unk as e:
            raise Undecided(e)

    def one(fx):
        e = ev(fx)
        a = e.asarr(e(v))
        if len(a.shape) != 1 or fx.eq(a.shape[0], shape[0]) is not True:
            if any(foreign(s, names) is not None for s in a.shape):
                raise Unk('shape')
            return 'bad', 'the time steps have shape %r instead of %r' % (a.shape, shape)
        x = a.get([ix])
        s = mulp(elem('times', [n], 'R') - t0, recip(dt))
        for form in (s, Poly.atom(('app', 'round', (s,))), Poly.atom(('app', 'floor', (s + K(Fraction(1, 2)),))), n):
            if equal(fx, x, form):
                return 'ok', ''
        fo = foreign(x, names)
        if fo is not None:
            raise Unk('value uses %s' % (fo,))
        return 'bad', 'time step %r is %r, not the step of sample %r' % (ix, x, n)
    c.ob('time steps at 2k+%d' % par, go)


def sampled_raises(c):
    """On the path to the result, lengths are equal and the spacing test passed."""
    r, f, v = run1('era.make_sampled_format')
    rs = [e for e in r.events if e.kind == 'raise' and not e.stack[0][1] is None]
    T1, M1 = None, None
    conds = {}
    for e in rs:
        for t, pol in e.pc:
            conds.setdefault(t, set()).add(pol)
    have_len = have_dt = False
    for t in conds:
        s = list(walk(t))
        mt = any(x is sym('times') for x in s)
        mm = any(x is sym('Markovs') for x in s)
        if mt and mm:
            have_len = True
        if mt and any(x is sym('dt_tol') for x in s):
            have_dt = True
    for ok, what in ((have_len, 'unequal lengths'), (have_dt, 'unequal spacing')):
        if not ok:
            if any(e.kind == 'call' and e.d['func'].op not in ('ext', 'class') for e in r.events):
                raise Undecided('validation not recognised')
            c.violate('rejects', 'make_sampled_format', floc(f), 'make_sampled_format does not reject %s' % what)
            continue
    if have_dt:
        spacing(c, r, f, conds)
    return 'raises on %d conditions' % len(conds)


def spacing(c, r, f, conds):
    """The spacing test looks at every step: max |diff(times) - dt| > tol."""
    i = ivar('i')
    T0 = dim('times', 0)
    good = mkq = None
    for t in conds:
        if not any(x is sym('dt_tol') for x in walk(t)):
            continue
        if t.op != 'cmp' or t.args[0] != '<':
            continue
        pol = conds[t]
        lo, hi = t.args[1], t.args[2]
        # violation when dt_tol < max|..|
        if lo is sym('dt_tol') and pol == {True}:
            big = hi
        elif hi is sym('dt_tol') and pol == {False}:
            big = lo
        elif lo is sym('dt_tol') or hi is sym('dt_tol'):
            c.violate('rejects', 'make_sampled_format', floc(f), 'the spacing test is inverted: raises when %s' % show(t, 5))
            return
        else:
            continue
        m = big
        if m.op == 'call' and m.args[0].op == 'ext' and m.args[0].args[0] in ('numpy.amax', 'numpy.max', 'builtins.max') and len(m.args[1]) == 1:
            x = m.args[1][0]
        elif m.op == 'mcall' and m.args[1] == 'max' and not m.args[2]:
            x = m.args[0]
        elif m.op == 'call' and m.args[0].op == 'ext' and m.args[0].args[0] in ('numpy.amin', 'numpy.min'):
            c.violate('rejects', 'make_sampled_format', floc(f), 'the spacing test looks at the smallest deviation only: %s' % show(t, 5))
            return
        else:
            raise Undecided('spacing test %s' % show(t, 5))
        facts = [T0 - K(2)] + rng(i, T0 - ONE)
        spec = elem('times', [i + ONE], 'R') - elem('times', [i], 'R') - elem('times', [ONE], 'R') + elem('times', [ZERO], 'R')

        def ev(fx):
            return Ev({sym('times'): Inp('times', 1, real=True)}, fx, loops=r.an.loops)
        ab = Poly.atom(('app', 'abs', (spec,)))
        ab2 = Poly.atom(('app', 'abs', (spec.scale(-1),)))

        def sp(e, ix):
            v = e.asarr(e(x)).get(list(ix))
            return v if v in (ab, ab2) else ab
        compare_arr(c, 'deviation from equal spacing', 'make_sampled_format', floc(f), ev, x, [T0 - ONE], [i], sp, {'times'}, 'the tested deviation', facts, rule='rejects')
        return
    raise Undecided('spacing test not recognised')


# ------------------------------------------------------------------ N17
@prop('N17', 'element-wise semantics of the array form; event analysis of the handle form (which handle is read and written with which index)', NOTE)
def n17(c):
    c.rule('definition', 'derivative i = (adv_vec i - vec i)/dt')
    c.ob('compute_derivs_arrays', derivs_arrays, c)
    for w in ('nompi', 'mpiN'):
        c.ob('compute_derivs_handles [%s]' % w, derivs_handles, c, w)


def derivs_arrays(c):
    r, f, v = run1('ltigalerkinproj.compute_derivs_arrays')
    i, j = ivar('i'), ivar('j')
    n, m = dim('vecs', 0), dim('vecs', 1)

    def ev(fx):
        return Ev({sym('vecs'): Inp('vecs', 2), sym('adv_vecs'): Inp('adv_vecs', 2, dims=[n, m]), sym('dt'): Poly.atom('dt')}, fx, loops=r.an.loops, hints=[i, j])
    compare_arr(c, 'compute_derivs_arrays', 'compute_derivs_arrays', floc(f), ev, v, [n, m], [i, j],
                lambda e, ix: mulp(elem('adv_vecs', [i, j]) - elem('vecs', [i, j]), recip(Poly.atom('dt'))), {'vecs', 'adv_vecs', 'dt'},
                'the derivative', rng(i, n) + rng(j, m))


def lin(t, atoms):
    """t as a linear combination of vectors: {atom: coefficient Poly}; None when not understood."""
    if t in atoms:
        return {atoms[t]: ONE}
    if t.op == 'bin':
        o, a, b = t.args[:3]
        if o in '+-':
            x, y = lin(a, atoms), lin(b, atoms)
            if x is None or y is None:
                return None
            d = dict(x)
            for k, v in y.items():
                d[k] = d.get(k, ZERO) + (v if o == '+' else v.scale(-1))
            return d
        if o == '*':
            for s, v in ((a, b), (b, a)):
                k = scal(s)
                x = lin(v, atoms) if k is not None else None
                if x is not None:
                    return {q: mulp(w, k) for q, w in x.items()}
        if o == '/':
            k, x = scal(b), lin(a, atoms)
            if k is not None and x is not None:
                return {q: mulp(w, recip(k)) for q, w in x.items()}
    if t.op == 'un' and t.args[0] == '-':
        x = lin(t.args[1], atoms)
        return None if x is None else {k: v.scale(-1) for k, v in x.items()}
    return None


def scal(t):
    try:
        return Ev({sym('dt'): Poly.atom('dt')}, Facts()).num(t) if not any(x.op in ('mcall',) for x in walk(t)) else None
    except Unk:
        return None


def derivs_handles(c, world):
    pkg = package(world)
    q = 'ltigalerkinproj.compute_derivs_handles'
    f = pkg.func(q)
    if f is None:
        raise Undecided('not found')
    r = run_any(pkg, f)
    puts = [e for e in r.events if e.kind == 'mcall' and e.d['name'] == 'put']
    if not puts:
        raise Undecided('no put of a derivative found')
    for e in puts:
        d = r.deep(e.d['recv'])
        val = r.deep(e.d['args'][0])
        if d.op != 'index' or d.args[0] is not sym('deriv_vec_handles'):
            raise Undecided('put to %s' % show(d, 4))
        ix = d.args[1]
        atoms, wrong = {}, None
        for x in walk(val):
            if x.op == 'mcall' and x.args[1] == 'get':
                h = x.args[0]
                if h.op == 'index' and h.args[0].op == 'sym':
                    atoms[x] = (h.args[0].args[0], h.args[1])
        l = lin(val, atoms)
        if l is None:
            raise Undecided('value put: %s' % show(val, 6))
        dt = recip(Poly.atom('dt'))
        want = {('adv_vec_handles', ix): dt, ('vec_handles', ix): dt.scale(-1)}
        got = {k: v for k, v in l.items() if v.d}
        if got != want:
            if any(k[1] is not ix and not (k[1].op in ('lv', 'index', 'const', 'bin', 'sym')) for k in got):
                raise Undecided('indices %s' % (got,))
            c.violate('definition', 'compute_derivs_handles', e.loc, 'the vector put to handle %s is %s instead of (adv - vec)/dt of the same index' % (
                show(ix, 4), {'%s[%s]' % (k[0], show(k[1], 4)): v for k, v in got.items()}))
            return False
    c.note('puts', len(puts))
    return '%d put site' % len(puts)


# ------------------------------------------------------------------ N18
@prop('N18', 'value-numbering of the arguments given to scipy.signal and of the axis order of the result', NOTE + ' Trusts scipy.signal.dlsim/dimpulse/StateSpace.')
def n18(c):
    c.rule('definition', 'the simulated system is (A, B, C, 0) with dt=1; outputs are passed on unchanged; Markov parameters are (step, output, input)')
    c.ob('lsim', lsim, c)
    for g in (True, False):
        c.ob('impulse steps=%s' % g, impulse, c, g)


def strip_arr(t):
    while t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.array', 'numpy.asarray') and t.args[1]:
        t = t.args[1][0]
    return t


SS = ('scipy.signal.StateSpace', 'scipy.signal.ltisys.StateSpace', 'scipy.signal.dlti', 'scipy.signal.StateSpaceDiscrete')


def statespace(c, tag, loc, t):
    """Is t the system (A,B,C,0,dt=1)?"""
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in SS:
        a = list(t.args[1])
        kw = dict(t.args[2])
        dt = kw.get('dt', const(1) if t.args[0].args[0].endswith('dlti') else None)
    elif t.op == 'tuple' and len(t.args[0]) == 5:
        a = list(t.args[0][:4])
        dt = t.args[0][4]
    else:
        raise Undecided('system %s' % show(t, 4))
    if len(a) != 4:
        raise Undecided('system %s' % show(t, 4))
    ok = True
    for n, x in zip('ABC', a):
        s = strip_arr(x)
        if s is not sym(n):
            if s.op == 'sym' or (s.op == 'attr' and s.args[1] == 'T'):
                c.violate('definition', tag, loc, '%s simulates with %s in place of %s' % (tag, show(s, 3), n))
                ok = False
            else:
                raise Undecided('%s argument %s' % (n, show(x, 4)))
    if dt is None or dt.op != 'const':
        if dt is None:
            c.violate('definition', tag, loc, '%s builds a continuous-time system: no dt' % tag)
            return False
        raise Undecided('dt %s' % show(dt, 3))
    if dt.args[0] not in (1, 1.0) or dt is TRUE:
        c.violate('definition', tag, loc, '%s uses dt=%r instead of 1' % (tag, dt.args[0]))
        ok = False
    d = a[3]
    if is_num(d) and d.args[0] == 0:
        return ok

    def ev(fx):
        return Ev({sym(n): Inp(n, 2) for n in 'ABC'}, fx)
    p, q = ivar('p'), ivar('q')
    compare_arr(c, '%s feed-through' % tag, tag, loc, ev, d, [dim('C', 0), dim('B', 1)], [p, q], lambda e, i: ZERO, {'A', 'B', 'C'}, 'D',
                rng(p, dim('C', 0)) + rng(q, dim('B', 1)))
    return ok


def argof(t, pos, *names):
    kw = dict(t.args[2])
    if len(t.args[1]) > pos:
        return t.args[1][pos]
    for n in names:
        if n in kw:
            return kw[n]
    return NONE


def lsim(c):
    r, f, v = run1('util.lsim')
    loc = floc(f)
    if v.op == 'phi':
        raise Undecided('result %s' % show(v, 4))
    if not (v.op == 'index' and v.args[0].op == 'call' and v.args[0].args[0].op == 'ext' and v.args[0].args[0].args[0] == 'scipy.signal.dlsim'):
        raise Undecided('result %s' % show(v, 4))
    call = v.args[0]
    if v.args[1] is not const(1):
        if is_num(v.args[1]):
            c.violate('definition', 'lsim', loc, 'lsim returns item %r of dlsim, not the outputs' % v.args[1].args[0])
            return False
        raise Undecided('item')
    statespace(c, 'lsim', loc, argof(call, 0, 'system'))
    u = strip_arr(argof(call, 1, 'u'))
    x0 = strip_arr(argof(call, 3, 'x0'))
    k, p = ivar('k'), ivar('p')

    def ev(fx):
        return Ev({sym('inputs'): Inp('inputs', 2), sym('initial_condition'): Inp('initial_condition', 1)}, fx, decide=nonone, loops=r.an.loops)
    for x, n in ((u, 'inputs'), (x0, 'initial_condition')):
        if x is not sym(n):
            if x is not NONE and sym(n) in walk(x):
                ix = [k, p] if n == 'inputs' else [k]
                compare_arr(c, 'lsim %s' % n, 'lsim', loc, ev, x, [dim(n, a) for a in range(len(ix))], ix, lambda e, i: elem(n, i), {n}, n,
                            [q for a, b in enumerate(ix) for q in rng(b, dim(n, a))])
                continue
            if x.op in ('const', 'sym') or x.op == 'attr' and x.args[0] is sym(n):
                c.violate('definition', 'lsim', loc, 'lsim simulates with %s in place of %s' % (show(x, 3), n))
                return False
            raise Undecided('%s argument %s' % (n, show(x, 4)))


def impulse(c, given):
    r, f, v = run1('util.impulse', {} if given else {'num_time_steps': NONE})
    loc = floc(f)
    calls = [x for x in walk(v) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'scipy.signal.dimpulse']
    calls = [x for x in calls if (argof(x, 3, 'n') is not NONE) == given or len(calls) == 1]
    allc = set(x for x in walk(v) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'scipy.signal.dimpulse')
    if not calls:
        raise Undecided('no dimpulse call in %s' % show(v, 5))
    # elements of the result: out[k, p, q] = Y[q][k+1, p]
    k, p, q = ivar('k'), ivar('p'), ivar('q')
    y = mk('dimp')
    inp = {}
    nst = None
    for x in allc:
        n = argof(x, 3, 'n')
        if n is NONE:
            N = Poly.atom('N')
        else:
            try:
                N = Ev({sym('num_time_steps'): Poly.atom('S')}, Facts()).num(n)
            except Unk as e:
                raise Undecided(e)
        inp[mkindex(x, const(1))] = Lst(dim('B', 1), (lambda N: lambda i: Arr([N, dim('C', 0)], lambda ix: elem('Y', [i] + list(ix))))(N))
        if not statespace(c, 'impulse', loc, argof(x, 0, 'system')):
            return False
        for pos, nm in ((1, 'x0'), (2, 't')):
            if argof(x, pos, nm) is not NONE:
                raise Undecided('dimpulse argument %s' % nm)
    steps = Poly.atom('S') if given else Poly.atom('N') - ONE

    def ev(fx):
        return Ev(dict(inp) if not given else dict(list(inp.items()) + [(sym('num_time_steps'), Poly.atom('S'))]), fx, decide=lambda t: nonone(t) if given else (True if t.op == 'cmp' and t.args[0] == 'is' and t.args[1] is sym('num_time_steps') else None),
                  loops=r.an.loops, hints=[k, p, q])
    if given:
        S0 = Poly.atom('S')
        e0 = ev(Facts([S0, S0.scale(-1), Poly.atom('N') - K(2), dim('C', 0) - ONE, dim('B', 1) - ONE]))
        try:
            n0 = e0.asarr(e0(v)).shape[0]
        except Unk as e:
            n0 = None
        if n0 is not None and n0 == Poly.atom('N') - ONE:
            c.violate('definition', 'impulse', loc, 'asked for zero time steps, impulse returns the default number of them')
            return False
    facts = [Poly.atom('S') - ONE, Poly.atom('N') - K(2)] + rng(k, steps) + rng(p, dim('C', 0)) + rng(q, dim('B', 1))
    compare_arr(c, 'impulse Markov parameters (steps %sgiven)' % ('' if given else 'not '), 'impulse', loc, ev, v, [steps, dim('C', 0), dim('B', 1)], [k, p, q],
                lambda e, i: elem('Y', [q, k + ONE, p]), {'Y', 'B', 'C', 'S', 'N'}, 'the array of Markov parameters', facts)


# ------------------------------------------------------------------ N15
@prop('N15', 'element-wise semantics of the provided inner products; path analysis of the shape tests', NOTE)
def n15(c):
    c.rule('conjugate-linear', 'the first argument, and only it, is conjugated')
    c.rule('weights', 'each grid weights its own axis')
    c.rule('rejects', 'vectors of another shape raise')
    c.ob('inner_product_array_uniform', uniform, c)
    for m in ('inner_product', '__call__'):
        for n in (1, 2, 3):
            c.ob('InnerProductTrapz.%s with %d grids' % (m, n), trapz, c, m, n)
    c.ob('InnerProductTrapz rejects', trapz_raises, c)
    c.ob('InnerProductBlock', block, c)


def uniform(c):
    """sum over all elements of conj(vec1)*vec2."""
    r, f, v = run1('vectors.inner_product_array_uniform')
    k = ('bv', 0)
    for nd in (1, 2, 3):
        def ev(fx, nd=nd):
            dims = [dim('vec', a) for a in range(nd)]
            return Ev({sym('vec1'): Inp('vec1', nd, dims=dims), sym('vec2'): Inp('vec2', nd, dims=dims)}, fx, loops=r.an.loops)
        at = [Poly.atom('z%d' % a) for a in range(nd)]
        spec = elem('vec1', at, 'C') * elem('vec2', at)
        for a in range(nd):
            spec = mksum('z%d' % a, dim('vec', a), spec)
        compare_arr(c, 'inner_product_array_uniform %d-D' % nd, 'inner_product_array_uniform', floc(f), ev, v, [], [], lambda e, i, spec=spec: spec, {'vec1', 'vec2', 'vec'}, 'the product',
                    [dim('vec', a) - ONE for a in range(nd)], rule='conjugate-linear')


def trapz_term(t):
    """(array, grid, axis) of a trapezoidal integration."""
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.trapz', 'numpy.trapezoid', 'scipy.integrate.trapezoid', 'scipy.integrate.trapz'):
        y = argof(t, 0, 'y')
        x = argof(t, 1, 'x')
        ax = argof(t, 3, 'axis')
        return y, x, (-1 if ax is NONE else ax.args[0] if is_num(ax) else None)
    return None


def trapz(c, m, n):
    pkg = package('nompi')
    names = ['g%d' % k for k in range(n)]

    def assume(t):
        # grids are arrays; vectors match the grid
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.isinstance':
            return True
        if t.op == 'cmp' and t.args[0] == '==' and any(x.op == 'attr' and x.args[1] == 'shape' and x.args[0].op == 'sym' for x in t.args[1:]):
            return True
        return None
    r = Run(pkg, assume)
    o = r.new('vectors.InnerProductTrapz', [sym(x) for x in names])
    if not r.st.alive:
        raise Undecided('constructor raises')
    v = r.deep(r.method(o, m, [sym('vec1'), sym('vec2')]))
    if not r.st.alive:
        raise Undecided('always raises')
    loc = floc(r.an.objcls[o.args[0]].lookup(m)[0].args[0])
    axes = list(range(n))
    t = v
    used, calls = {}, []
    unk = lambda: Undecided('result %s' % show(v, 8))
    while True:
        z = trapz_term(t)
        if z is None:
            break
        y, x, ax = z
        calls.append((strip_arr(x), ax))
        t = y
    for x, ax in reversed(calls):
        if ax is None or not axes or not (-len(axes) <= ax < len(axes)):
            raise unk()
        used[axes.pop(ax)] = x
    if t.op == 'loopout':
        raise unk()
    if axes:
        if used:
            c.violate('weights', 'InnerProductTrapz', loc, 'with %d grids the axes %s are not integrated' % (n, axes))
            return False
        raise unk()
    for a in range(n):
        if used[a] is not sym('g%d' % a):
            if used[a] is NONE or used[a].op in ('sym', 'const'):
                c.violate('weights', 'InnerProductTrapz', loc, 'with %d grids axis %d is integrated with grid %s instead of grid %d' % (n, a, show(used[a], 3), a))
                return False
            raise unk()
    ev = Ev({sym('vec1'): Poly.atom(('el', 'vec1', '', ())), sym('vec2'): Poly.atom(('el', 'vec2', '', ()))}, Facts())
    try:
        got = ev.num(t)
    except Unk as e:
        raise Undecided(e)
    want = elem('vec1', [], 'C') * elem('vec2', [])
    if got != want:
        if foreign(got, {'vec1', 'vec2'}) is not None:
            raise Undecided('integrand %r' % (got,))
        c.violate('conjugate-linear', 'InnerProductTrapz', loc, 'the integrand is %r instead of conj(vec1)*vec2' % (got,))
        return False
    return 'axes %s' % sorted(used)


def trapz_raises(c):
    """Without a matching shape no result is produced."""
    pkg = package('nompi')
    cl = pkg.cls('vectors.InnerProductTrapz')
    if cl is None:
        raise Undecided('class not found')
    for m in ('inner_product', '__call__'):
        for bad in ('vec1', 'vec2'):
            def assume(t):
                if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.isinstance':
                    return True
                if t.op == 'cmp' and t.args[0] == '==' and any(x.op == 'attr' and x.args[1] == 'shape' and x.args[0].op == 'sym' for x in t.args[1:]):
                    s = {x.args[0].args[0] for x in t.args[1:] if x.op == 'attr' and x.args[0].op == 'sym'}
                    return bad not in s
                return None
            r = Run(pkg, assume)
            o = r.new('vectors.InnerProductTrapz', [sym('g0'), sym('g1')])
            if not r.st.alive:
                raise Undecided('constructor raises')
            r.method(o, m, [sym('vec1'), sym('vec2')])
            if r.st.alive:
                fm = cl.lookup(m)[0].args[0]
                c.violate('rejects', 'InnerProductTrapz', floc(fm), 'a result is produced for %s of a shape different from the grid' % bad)
    # no grids, or grids that are not arrays
    r = Run(pkg)
    r.new('vectors.InnerProductTrapz', [])
    if r.st.alive:
        c.violate('rejects', 'InnerProductTrapz.__init__', '%s:%d' % (cl.module.path, cl.node.lineno), 'accepts no grid at all')


def block(c):
    pkg = package('nompi')
    r = Run(pkg)
    o = r.new('util.InnerProductBlock', [sym('ip')])
    v = r.deep(r.method(o, '__call__', [sym('vecs1'), sym('vecs2')]))
    if not r.st.alive:
        raise Undecided('always raises')
    fm = r.an.objcls[o.args[0]].lookup('__call__')[0].args[0]
    i, j = ivar('i'), ivar('j')
    n, m = dim(sym('vecs1')), dim(sym('vecs2'))

    def lst(name):
        return Lst(dim(sym(name)), lambda k: Opq(('item', name, k)))

    def ev(fx):
        return Ev({sym('vecs1'): lst('vecs1'), sym('vecs2'): lst('vecs2')}, fx, loops=r.an.loops, hints=[i, j])
    want = ('obj', ('app', sym('ip'), (('item', 'vecs1', i), ('item', 'vecs2', j)), ()))
    wrong = [('obj', ('app', sym('ip'), (('item', a, x), ('item', b, y)), ())) for a in ('vecs1', 'vecs2') for b in ('vecs1', 'vecs2') for x in (i, j) for y in (i, j)]
    compare_arr(c, 'InnerProductBlock', 'InnerProductBlock', floc(fm), ev, v, [n, m], [i, j], lambda e, ix: Poly.atom(want), set(wrong), 'the block',
                [n - ONE, m - ONE] + rng(i, n) + rng(j, m), cases=([n - m, m - n], [n - m - ONE], [m - n - ONE]))
