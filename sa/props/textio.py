"""D02 (text files of arrays), D07 (signals from several files)."""
from ..elemcheck import *
from ..report import prop
from ..numrun import floc
from ..interp import mkindex
from .handles import truth, resolve, extname, is_call, Unk as HUnk

NOTE7 = ('Symbolic element-wise semantics of the loaded arrays for any number of files, times and signals; the rejected inputs are decided by evaluating '
         'every raise condition under each kind of inconsistency of a symbolic file. The reading of one text file is trusted here and decided by D02.')
NOTE2 = ('Abstract interpretation over number type, memory layout and dimension: every combination is propagated through the code to the savetxt/loadtxt '
         'call. numpy conversions, views, savetxt and loadtxt are trusted as modelled.')
LOAD = 'util.load_array_text'


# ------------------------------------------------------------------------------------------- D07
class Files(object):
    """dims(idx) -> (times, columns) of file idx; times_differ(i, j)."""

    def __init__(self, r, P, T, C, bad=None, badT=None, badC=None, values=None):
        self.r, self.P, self.T, self.C = r, P, T, C
        self.bad, self.badT, self.badC, self.values = bad, badT, badC, values

    def hook(self, ev, t):
        if t.op == 'prim' and t.args[0] == LOAD:
            p = dict(t.args[1])['file_name']
            if p.op != 'index' or p.args[0] is not sym('signal_paths'):
                raise Unk('path of a file: %s' % show(p, 4))
            i = ev.num(p.args[1])
            i = i + self.P if i.isconst() and i.value() < 0 else i
            T_, C_ = self.T, self.C
            if self.bad is not None and ev.eq(i, self.bad):
                T_, C_ = self.badT or T_, self.badC or C_
            return Arr([T_, C_], lambda ix: elem('file', [i] + list(ix), 'R'))
        if t.op == 'mu' and t not in ev.mus:
            lp = ev.loops.get(t.args[0])
            if lp is not None:
                for lo in loopouts(self.r, t.args[0], t.args[1]):
                    return ev(lo.args[2])
        return None

    def decide(self, ev, c):
        """np.allclose(times, times) and the like."""
        pair, pos = closeness(c)
        if pair is not None:
            v = self.agree(ev, c, pair) or bool(pair) and loose(c) and self.values is not None
            if pos in ('apart', 'not apart'):
                n = ev.asarr(ev(pair[0])).shape
                # at most one time differs, or all of them
                v = not v and bool(not n or ev.eq(n[0], ONE) or self.values == 'all')
                return v == (pos == 'apart')
            return v if pos else not v
        return None

    def agree(self, ev, c, pair):
        """Whether the two arrays of times are equal: the bad file's times are those of the others but for the changed ones."""
        single = is_call(c, 'numpy.isclose', 'math.isclose')
        arrs = [ev.asarr(ev(x)) for x in pair]
        for a in arrs:
            if len(a.shape) > 1 or len(a.shape) == 1 and single:
                raise Unk('compared arrays')
        ns = [a.shape[0] if a.shape else ONE for a in arrs]
        at = lambda a, k: a.get([k] if a.shape else [])
        rows = [q[3][1] - k for a in arrs for k in (ZERO, ONE) if a.shape or k == ZERO for q in at(a, k).atoms() if self.time(ev, q)]
        if not rows:
            raise Unk('compared columns')
        if arrs[0].shape and arrs[1].shape and not ev.eq(ns[0], ns[1]):
            return False
        n = ns[0] if arrs[0].shape else ns[1]
        many = any(a.shape for a in arrs)
        ks = [ZERO] + ([ONE, n - ONE] if many else [])
        if isinstance(self.values, Poly):
            # the places at which the changed time is met
            ks += [self.values - r_ for r_ in rows if many and ev.ge(self.values - r_) and ev.ge(n - ONE - self.values + r_)]
        same = True
        for k in ks:
            ref, chg = [], ZERO
            for a, sign in zip(arrs, (1, -1)):
                for m, q in at(a, k).d.items():
                    if len(m) != 1 or not self.time(ev, m[0]):
                        raise Unk('compared columns')
                    i, row = m[0][3][:2]
                    q = q * sign
                    if self.values is not None and ev.eq(i, self.bad) and (self.values == 'all' or ev.eq(row, self.values)):
                        chg = chg + ONE.scale(q)
                    for e in ref:
                        if ev.eq(e[0], row):
                            e[1] += q
                            break
                    else:
                        ref.append([row, q])
            if any(q for _, q in ref):
                raise Unk('times compared with other times')
            same = same and chg.isconst() and chg.value() == 0
        return same

    def time(self, ev, q):
        if not isinstance(q, tuple) or q[0] != 'el':
            return False
        if q[1] != 'file' or not ev.eq(q[3][2], ZERO):
            raise Unk('compared columns')
        return True


def difference(t):
    """(a, b) of abs(a - b)."""
    if is_call(t, 'numpy.abs', 'numpy.absolute', 'builtins.abs', 'numpy.fabs') and len(t.args[1]) == 1:
        d = t.args[1][0]
        if d.op == 'bin' and d.args[0] == '-':
            return d.args[1:3]
        if is_call(d, 'numpy.subtract') and len(d.args[1]) == 2:
            return d.args[1]
    return None


def small(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float)) and 0 <= t.args[0] <= 1e-6


def closeness(c):
    """((a, b), polarity) when the condition says that all elements of a and b agree (or not)."""
    if c.op == 'not':
        p, s = closeness(c.args[0])
        return p, {'apart': 'not apart', 'not apart': 'apart'}.get(s) or not s
    if is_call(c, 'numpy.allclose', 'numpy.array_equal', 'numpy.isclose', 'math.isclose') and len(c.args[1]) >= 2:
        tol(c)
        return c.args[1][:2], True
    q, x = None, None
    if c.op == 'mcall' and c.args[1] in ('all', 'any') and not c.args[2]:
        q, x = c.args[1], c.args[0]
    elif is_call(c, 'numpy.all', 'numpy.any', 'builtins.all', 'builtins.any') and len(c.args[1]) == 1:
        q, x = c.args[0].args[0].rsplit('.', 1)[-1], c.args[1][0]
    if q is not None:
        if is_call(x, 'numpy.isclose'):
            tol(x)
            return x.args[1][:2], True if q == 'all' else 'not apart'
        pos = True
        while x.op == 'not' or x.op == 'un' and x.args[0] in ('~', 'not'):
            x, pos = x.args[-1], not pos
        if x.op == 'cmp' and x.args[0] == '==':
            return x.args[1:3], pos if pos == (q == 'all') else ('apart' if q == 'all' else 'not apart')
        if x.op == 'cmp' and x.args[0] == '<':
            for u, v, near in ((x.args[1], x.args[2], True), (x.args[2], x.args[1], False)):
                d = difference(u)
                if d and small(v):
                    # all near, any far: agreement; all far, any near: complete disagreement
                    return d, (near == pos) if (near == pos) == (q == 'all') else ('apart' if q == 'all' else 'not apart')
    if c.op == 'cmp' and c.args[0] == '<':
        for u, v, near in ((c.args[1], c.args[2], True), (c.args[2], c.args[1], False)):
            m = None
            if u.op == 'mcall' and u.args[1] == 'max' and not u.args[2]:
                m = u.args[0]
            elif is_call(u, 'numpy.max', 'numpy.amax', 'builtins.max') and len(u.args[1]) == 1:
                m = u.args[1][0]
            d = difference(m) if m is not None else None
            if d and small(v):
                return d, near
            m = None
            if u.op == 'mcall' and u.args[1] == 'min' and not u.args[2]:
                m = u.args[0]
            elif is_call(u, 'numpy.min', 'numpy.amin', 'builtins.min') and len(u.args[1]) == 1:
                m = u.args[1][0]
            d = difference(m) if m is not None else None
            if d and small(v):
                return d, 'not apart' if near else 'apart'
    return None, True


def tol(c):
    for k, v in c.args[2]:
        if k in ('rtol', 'atol'):
            if v.op != 'const' or not isinstance(v.args[0], (int, float)) or (1e-5 if k == 'rtol' else 1e-8) < v.args[0] < 1e-2:
                raise Unk('tolerance %s' % k)
    if len(c.args[1]) > 2:
        raise Unk('tolerances')


def loose(c):
    """Tolerances so wide that times which differ pass for equal."""
    return any(is_call(x, 'numpy.allclose', 'numpy.isclose', 'math.isclose') and
               any(k in ('rtol', 'atol') and v.op == 'const' and isinstance(v.args[0], (int, float)) and v.args[0] >= 1e-2 for k, v in x.args[2]) for x in walk(c))


def loopouts(r, lid, key):
    for x in walk(r.result_):
        if x.op == 'loopout' and x.args[0] == lid and x.args[1] == key:
            yield x


def evaluator(F_, r, fx, lvs=()):
    box = []

    def dec(c):
        d = nonone_(c)
        return d if d is not None else F_.decide(box[-1], c)
    e = Ev({sym('signal_paths'): Inp('paths', 1, dims=[F_.P])}, fx, decide=dec, loops=r.an.loops, hints=[ivar('k')], hook=F_.hook)
    box.append(e)
    for l, v in lvs:
        e.env[l] = v
    return e


def nonone_(t):
    if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and t.args[1].op == 'sym':
        return t.args[1].args[0] == 'delimiter'
    return None


@prop('D07', 'element-wise semantics of the loaded arrays at symbolic file, time and signal; evaluation of every raise condition under each inconsistency of a symbolic file', NOTE7)
def d07(c):
    c.rule('content', 'times are column 0 of the file, signal s of file k is its column s+1, at index k')
    c.rule('arguments', 'each file is read from its own path with the given delimiter as real data')
    c.rule('rejects', 'a file with no signal, other times or another number of signals raises ValueError; consistent files do not')
    c.ob('load_signals', single, c)
    c.ob('load_signals without signal', single_rejects, c)
    c.ob('load_multiple_signals', several, c)
    c.ob('load_multiple_signals arguments', several_args, c)
    for kind in SCEN:
        c.ob('load_multiple_signals rejects another %s' % kind, rejects, c, kind)
    c.ob('load_multiple_signals accepts consistent files', accepts_, c)


def raising(r):
    return [e for e in r.events if e.kind == 'raise']


def run_single():
    pkg = package('nompi')
    f = pkg.func('util.load_signals')
    if f is None or pkg.func(LOAD) is None:
        raise Undecided('load_signals not found')
    r = Run(pkg, None, {LOAD: True})
    r.result_ = r.deep(r.call('util.load_signals', None))
    ps = [e for e in r.events if e.kind == 'prim' and e.d['qual'] == LOAD]
    if len(ps) != 1:
        raise Undecided('%d readings of the file' % len(ps))
    return r, f, ps[0]


def check_read(c, e, construct, path):
    a = e.d['args']
    if a.get('file_name') is not path:
        if a.get('file_name') is None or path is None:
            raise Undecided('file name')
        c.violate('arguments', construct, e.loc, 'the data is read from %s, not from the path given' % show(a['file_name'], 4))
        return False
    return check_opts(c, e, construct)


def check_opts(c, e, construct):
    a = e.d['args']
    dl = a.get('delimiter', NONE)
    ok = dl is sym('delimiter')
    if dl.op in ('const', 'none') or dl is NONE:
        c.violate('arguments', construct, e.loc, 'the file is read with delimiter %s, not with the delimiter given' % show(dl, 3))
        return False
    if not ok:
        raise Undecided('delimiter %s' % show(dl, 4))
    ic = a.get('is_complex', FALSE)
    if ic is TRUE:
        c.violate('arguments', construct, e.loc, 'the file is read as complex data: times and signals are paired up as real and imaginary parts')
        return False
    if ic is not FALSE:
        raise Undecided('is_complex %s' % show(ic, 4))
    return True


def inputs1(r, e, T_, C_, fx):
    return Ev({e.d['result']: Arr([T_, C_], lambda ix: elem('file', list(ix), 'R'))}, fx, decide=nonone_, loops=r.an.loops, hints=[ivar('t')])


def single(c):
    r, f, e = run_single()
    if not check_read(c, e, 'load_signals', sym('signal_path')):
        return False
    T_, S_ = Poly.atom('T'), Poly.atom('S')
    t, s = ivar('t'), ivar('s')
    facts = [T_ - ONE, S_ - ONE] + rng(t, T_) + rng(s, S_)

    def ev(fx):
        return inputs1(r, e, T_, S_ + ONE, fx)
    v = r.result_
    names = {'file'}
    for k, what, shape, ix, spec in ((0, 'the returned times', [T_], [t], lambda e_, i: elem('file', [t, ZERO], 'R')),
                                     (1, 'the returned signals', [T_, S_], [t, s], lambda e_, i: elem('file', [t, s + ONE], 'R'))):
        compare_arr(c, what, 'load_signals', floc(f), ev, mkindex(v, const(k)), shape, ix, spec, names, what, facts, rule='content')
    return ''


def holds_(ev, pc):
    for t, pol in pc:
        d = ev.cond(t)
        if d is None:
            raise Undecided('condition %s' % show(t, 5))
        if d != pol:
            return False
    return True


def single_rejects(c):
    r, f, e = run_single()
    T_ = Poly.atom('T')
    for C_, want in ((ONE, True), (Poly.atom('S') + ONE, False)):
        fx = Facts()
        for p in [T_ - ONE] + ([Poly.atom('S') - ONE] if not want else []):
            fx.add(p)
        ev = inputs1(r, e, T_, C_, fx)
        hit = []
        for x in raising(r):
            try:
                if holds_(ev, x.pc):
                    hit.append(x)
            except (Unk, Split) as u:
                raise Undecided('condition of the exception: %s' % u)
        if want and not hit:
            c.violate('rejects', 'load_signals', floc(f), 'a file with a single column (no signal) is not rejected')
            return False
        if not want and hit:
            c.violate('rejects', 'load_signals', hit[0].loc, 'a file with times and at least one signal is rejected')
            return False
        for x in hit:
            if not value_error(c, x, 'load_signals'):
                return False
    return ''


def value_error(c, x, construct):
    ex = x.d['exc']
    if ex.op == 'call':
        ex = ex.args[0]
    if ex.op in ('ext', 'fn') and extname(ex) in ('builtins.ValueError',):
        return True
    if ex.op in ('ext',):
        c.violate('rejects', construct, x.loc, 'inconsistent data raises %s instead of ValueError' % extname(ex).split('.')[-1])
        return False
    raise Undecided('exception %s' % show(ex, 3))


def run_several():
    pkg = package('nompi')
    f = pkg.func('util.load_multiple_signals')
    if f is None or pkg.func(LOAD) is None:
        raise Undecided('load_multiple_signals not found')
    r = Run(pkg, None, {LOAD: True})
    r.result_ = r.deep(r.call('util.load_multiple_signals', None))
    return r, f


P_, T_, S_, K_ = (Poly.atom(x) for x in ('P', 'T', 'S', 'b'))


def several(c):
    r, f = run_several()
    k, t, s = ivar('k'), ivar('t'), ivar('s')
    facts = [P_ - ONE, T_ - ONE, S_ - ONE] + rng(k, P_) + rng(t, T_) + rng(s, S_)
    F_ = Files(r, P_, T_, S_ + ONE)

    def ev(fx):
        return evaluator(F_, r, fx)
    v = r.result_
    names = {'file'}
    for n, what, shape, ix, spec in ((0, 'the returned times', [T_], [t], lambda e_, i: elem('file', [ZERO, t, ZERO], 'R')),
                                     (1, 'the returned signals', [P_, T_, S_], [k, t, s], lambda e_, i: elem('file', [k, t, s + ONE], 'R'))):
        compare_arr(c, what, 'load_multiple_signals', floc(f), ev, mkindex(v, const(n)), shape, ix, spec, names, what, facts, rule='content',
                    cases=([k.scale(-1)], [k - ONE]))
    return ''


def several_args(c):
    r, f = run_several()
    ps = [e for e in r.events if e.kind == 'prim' and e.d['qual'] == LOAD]
    if not ps:
        raise Undecided('no file is read')
    for e in ps:
        if not check_opts(c, e, 'load_multiple_signals'):
            return False
        n = e.d['args'].get('file_name')
        for x in walk(r.deep(n)) if n is not None else ():
            if is_call(x, 'builtins.sorted', 'builtins.set', 'builtins.frozenset') and x.args[1][:1] == (sym('signal_paths'),) and e.loops:
                c.violate('arguments', 'load_multiple_signals', where(e), 'the files are read in the order of %s, not in the order given' % show(x, 3))
                return False
    return '%d readings' % len(ps)


SCEN = {'number of times': dict(badT=T_ + ONE), 'number of signals': dict(badC=ONE + ONE), 'first time': dict(values=ZERO), 'last time': dict(values=T_ - ONE), 'times (one in between)': dict(values=ONE), 'times (all later by the same time)': dict(values='all')}


def scenario(r, kind):
    fx = Facts()
    for p in [P_ - K_ - ONE, K_ - ONE, T_ - K(6), S_ - K(2)]:
        fx.add(p)
    if kind is None:
        return Files(r, P_, T_, S_ + ONE), fx
    return Files(r, P_, T_, S_ + ONE, bad=K_, **SCEN[kind]), fx


def fires(r, F_, fx, x):
    """Whether a raise is reached for some iteration reading file b (its neighbours are tried)."""
    lvs = loop_vars(x)
    if not lvs:
        return holds_(evaluator(F_, r, fx), x.pc)
    if len(lvs) > 1:
        raise Undecided('nested loops')
    (lid, cnt), = lvs.items()
    n = evaluator(F_, r, fx).num(cnt)
    for v in (K_, K_ - ONE, K_ + ONE):
        if fx.ge(v) and fx.ge(n - v - ONE) and holds_(evaluator(F_, r, fx, [(lid, v)]), x.pc):
            return True
    return False


def loop_vars(x):
    out = {}
    for t, _ in x.pc:
        for y in walk(t):
            if y.op == 'lv':
                out[y.args[0]] = y.args[1]
    return out


def rejects(c, kind):
    r, f = run_several()
    F_, fx = scenario(r, kind)
    hit = []
    for x in raising(r):
        try:
            if fires(r, F_, fx, x):
                hit.append(x)
        except (Unk, Split) as u:
            raise Undecided('condition of the exception at %s: %s' % (x.loc, u))
    if not hit:
        c.violate('rejects', 'load_multiple_signals', floc(f), 'a file that differs from the others in its %s is not rejected' % kind)
        return False
    for x in hit:
        if not value_error(c, x, 'load_multiple_signals'):
            return False
    return 'at %s' % hit[0].loc


def accepts_(c):
    r, f = run_several()
    F_, fx = scenario(r, None)
    for x in raising(r):
        try:
            bad = fires(r, F_, fx, x)
        except (Unk, Split) as u:
            raise Undecided('condition of the exception at %s: %s' % (x.loc, u))
        if bad:
            c.violate('rejects', 'load_multiple_signals', x.loc, 'files that agree on times and number of signals are rejected')
            return False
    return ''


# ------------------------------------------------------------------------------------------- D02
# An abstract array: dtype ('d' double, 'z' double complex, 'o' other real, 'w' other complex), layout C / F / any, nd shape, and what its numbers are:
# 'v' the values of the input, 'il' values interleaved (re, im, re, im along the row), 'bits' reinterpreted bit patterns, 'short' rounded numbers
class A(object):
    def __init__(self, dt, lay, shape, what='v'):
        self.dt, self.lay, self.shape, self.what = dt, lay, shape, what

    def but(self, **k):
        d = dict(dt=self.dt, lay=self.lay, shape=self.shape, what=self.what)
        d.update(k)
        return A(**d)

    def __repr__(self):
        return '%s %s %s %s' % (DT[self.dt], {'C': 'C-ordered', 'F': 'Fortran-ordered', '': ''}[self.lay], self.shape, WH[self.what])


DT = {'d': 'double', 'z': 'complex', 'o': 'single-precision or integer', 'w': 'single-precision complex'}
WH = {'pairs': 'separate real and imaginary parts', 'v': 'values', 'il': 'interleaved values', 'bits': 'reinterpreted bits', 'short': 'rounded values', 'cut': 'values without imaginary parts',
      'order': 'values in another order'}
SHAPES = {'1': 'one-dimensional', 'n1': 'column', '1n': 'row', 'nm': 'two-dimensional', '3': 'three-dimensional'}


class Fails(Exception):
    pass


class TextEv(object):
    """Propagates one abstract array; opts: {term: abstract value or bool}."""

    def __init__(self, opts):
        self.opts = opts

    def dtype(self, t, a=None):
        if t.op == 'phi':
            return self.dtype(t.args[1] if self.truth(t.args[0]) else t.args[2], a)
        n = extname(t)
        if n in ('builtins.float', 'numpy.float64', 'numpy.double', 'numpy.float_'):
            return 'd'
        if n in ('builtins.complex', 'numpy.complex128', 'numpy.cdouble', 'numpy.complex_'):
            return 'z'
        if n in ('numpy.float32', 'numpy.single', 'builtins.int', 'numpy.int64', 'numpy.float16', 'numpy.int32'):
            return 'o'
        if n in ('numpy.complex64', 'numpy.csingle'):
            return 'w'
        if t.op == 'const' and isinstance(t.args[0], str):
            d = {'float': 'd', 'float64': 'd', 'd': 'd', 'f8': 'd', 'complex': 'z', 'complex128': 'z', 'D': 'z', 'c16': 'z', 'float32': 'o', 'f': 'o',
                 'f4': 'o', 'int': 'o', 'complex64': 'w', 'F': 'w', 'c8': 'w'}.get(t.args[0])
            if d:
                return d
        if t.op == 'attr' and t.args[1] == 'dtype':
            return self(t.args[0]).dt
        if is_call(t, 'numpy.dtype') and len(t.args[1]) == 1:
            return self.dtype(t.args[1][0])
        raise Unk('number type %s' % show(t, 4))

    def truth(self, t):
        try:
            return truth(t, self.atom)
        except HUnk as e:
            raise Unk(str(e))

    def atom(self, t):
        if t in self.opts:
            return self.opts[t]
        if is_call(t, 'numpy.iscomplexobj', 'numpy.isrealobj') and len(t.args[1]) == 1:
            return (self(t.args[1][0]).dt in 'zw') == (extname(t.args[0]) == 'numpy.iscomplexobj')
        if t.op == 'cmp' and t.args[0] in ('<', '==', 'is'):
            if t.args[0] == 'is' and t.args[2] is NONE and t.args[1] in self.opts:
                v = self.opts[t.args[1]]
                if isinstance(v, A):
                    return False
                return v is None
            if t.args[0] == '==' and t.args[2].op == 'const' and isinstance(t.args[2].args[0], str) and t.args[1].op == 'attr' and t.args[1].args[1] == 'kind':
                x = t.args[1].args[0]
                k = self.dtype(x)
                if k != 'o':
                    return {'d': 'f', 'z': 'c', 'w': 'c'}[k] == t.args[2].args[0]
            if t.args[0] == '==':
                try:
                    x, y = self.dtype(t.args[1]), self.dtype(t.args[2])
                    if x != y:
                        return False
                    if x in 'dz':
                        return True
                except Unk:
                    pass
            x, y = self.num(t.args[1]), self.num(t.args[2])
            return x < y if t.args[0] == '<' else x == y
        n = self.num(t)
        return bool(n)

    def num(self, t):
        if t.op == 'const' and isinstance(t.args[0], (int, float)):
            return t.args[0]
        if t.op == 'attr' and t.args[1] == 'ndim':
            return {'1': 1, 'n1': 2, '1n': 2, 'nm': 2, '3': 3}[self(t.args[0]).shape]
        if is_call(t, 'builtins.len', 'numpy.ndim') and len(t.args[1]) == 1:
            x = t.args[1][0]
            if extname(t.args[0]) == 'numpy.ndim':
                return {'1': 1, 'n1': 2, '1n': 2, 'nm': 2, '3': 3}[self(x).shape]
            if x.op == 'attr' and x.args[1] == 'shape':
                return {'1': 1, 'n1': 2, '1n': 2, 'nm': 2, '3': 3}[self(x.args[0]).shape]
        if t in self.opts and isinstance(self.opts[t], int):
            return self.opts[t]
        if t.op == 'index' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and t.args[1].op == 'const' and 'columns' in self.opts:
            a = self(t.args[0].args[0])
            if a.what == 'il' and a.shape != '1':
                return self.opts['columns' if t.args[1].args[0] in (1, -1) else 'rows']
        if t.op == 'bin' and t.args[0] in ('%', '//', '+', '-', '*', '&'):
            x, y = self.num(t.args[1]), self.num(t.args[2])
            return {'%': lambda: x % y, '//': lambda: x // y, '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y}[t.args[0]]()
        if is_call(t, 'builtins.bool', 'builtins.int') and len(t.args[1]) == 1:
            return self.num(t.args[1][0])
        raise Unk('number %s' % show(t, 5))

    def __call__(self, t):
        if t in self.opts and isinstance(self.opts[t], A):
            return self.opts[t]
        if t.op == 'phi':
            return self(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if t.op == 'call':
            return self.call(extname(t.args[0]), list(t.args[1]), dict(t.args[2]), t)
        if t.op == 'mcall':
            recv, name, args, kw = t.args[0], t.args[1], list(t.args[2]), dict(t.args[3])
            a = self(recv)
            if name == 'view' and len(args) + len(kw) == 1:
                return self.view(a, self.dtype((args + list(kw.values()))[0]))
            if name == 'astype':
                return self.cast(a, args, kw)
            if name == 'copy':
                return self.layout(a, args[0] if args else kw.get('order'), 'C')
            if name == 'reshape':
                return self.reshape(a, list(args[0].args[0]) if len(args) == 1 and args[0].op == 'tuple' else args, t)
            if name == 'transpose' and not args:
                return self.T(a)
            if name in ('conj', 'conjugate') and not args and a.dt in 'do':
                return a
        if t.op == 'attr':
            a = self(t.args[0])
            if t.args[1] == 'T':
                return self.T(a)
            if t.args[1] == 'real':
                return a if a.dt in 'do' else a.but(dt='d' if a.dt == 'z' else 'o', what='cut', lay='')
            if t.args[1] == 'imag' and a.dt in 'zw':
                return a.but(dt='d' if a.dt == 'z' else 'o', what='imag', lay='')
        if t.op == 'index' and t.args[1].op == 'tuple' and len(t.args[1].args[0]) == 2:
            i, j = t.args[1].args[0]
            a = self(t.args[0])
            if a.shape == '1' and full(i) and j is NONE:
                return a.but(shape='n1')
            if a.shape == '1' and i is NONE and full(j):
                return a.but(shape='1n')
            if a.what == 'il' and full(i) and j.op == 'slice' and j.args[2].op == 'const' and j.args[2].args[0] == 2 and j.args[1] is NONE:
                if j.args[0] is NONE or j.args[0].op == 'const' and j.args[0].args[0] == 0:
                    return a.but(what='re', lay='')
                if j.args[0].op == 'const' and j.args[0].args[0] == 1:
                    return a.but(what='im', lay='')
        if t.op == 'bin' and t.args[0] == '+':
            for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if y.op == 'bin' and y.args[0] == '*':
                    for u, w in ((y.args[1], y.args[2]), (y.args[2], y.args[1])):
                        if u.op == 'const' and u.args[0] == 1j:
                            p, q = self(x), self(w)
                            if p.shape == q.shape and (p.what, q.what) == ('re', 'im'):
                                return p.but(dt='z', what='v', lay='C')
                            if p.shape == q.shape and (p.what, q.what) == ('im', 're'):
                                return p.but(dt='z', what='order', lay='C')
        raise Unk('value %s' % show(t, 5))

    def T(self, a):
        if a.shape == '1':
            return a
        if a.what not in ('v', 'cut', 'short'):
            raise Unk('transposed %r' % a)
        sh = {'n1': '1n', '1n': 'n1', 'nm': 'mn', 'mn': 'nm'}.get(a.shape)
        if sh is None:
            raise Unk('transpose')
        return a.but(shape=sh, lay={'C': 'F', 'F': 'C', '': ''}[a.lay])

    def layout(self, a, order, default):
        o = default
        if order is not None and order is not NONE:
            if order.op != 'const' or order.args[0] not in 'CFKA':
                raise Unk('order %s' % show(order, 3))
            o = order.args[0]
        if o in 'CF' and a.shape != '1':
            return a.but(lay=o)
        return a

    def number(self, a, dt):
        if dt == a.dt:
            return a
        w = a.what
        if w == 'il' and dt != 'd':
            if dt in 'zw':
                return a.but(dt=dt, what='pairs')
            raise Unk('conversion of interleaved data')
        if a.dt in 'zw' and dt in 'do':
            w = 'cut'
        elif dt in 'ow' and w == 'v':
            w = 'short'
        return a.but(dt=dt, what=w)

    def cast(self, a, args, kw):
        dt = args[0] if args else kw.get('dtype')
        if dt is None or set(kw) - {'dtype', 'order', 'copy'} or len(args) > 1:
            raise Unk('conversion')
        return self.layout(self.number(a, self.dtype(dt)), kw.get('order'), 'K')

    def view(self, a, dt):
        if dt == a.dt:
            return a
        if a.shape not in ('1', 'n1', '1n') and a.lay != 'C' and size(dt) != size(a.dt):
            if a.lay == 'F':
                raise Fails('a Fortran-ordered array has no view of another element size')
            raise Unk('layout of the viewed array')
        if a.what == 'il' and dt == 'z' and a.dt == 'd':
            return a.but(dt='z', what='v')
        if a.what == 'v' and a.dt == 'z' and dt == 'd':
            return a.but(dt='d', what='il')
        return a.but(dt=dt, what='bits')

    def reshape(self, a, sh, t):
        if len(sh) == 2 and a.shape == '1' and all(x.op == 'const' or True for x in sh):
            def c(x):
                return x.args[0] if x.op == 'const' else None
            if c(sh[1]) == 1:
                return a.but(shape='n1', lay='C')
            if c(sh[0]) == 1:
                return a.but(shape='1n', lay='C')
        raise Unk('reshape %s' % show(t, 4))

    def call(self, n, args, kw, t):
        if n in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asanyarray', 'numpy.copy', 'numpy.require'):
            if not args or set(kw) - {'dtype', 'order', 'copy', 'ndmin'} or len(args) > 2 or n == 'numpy.require':
                raise Unk('call %s' % show(t, 4))
            a = self(args[0])
            dt = args[1] if len(args) > 1 else kw.get('dtype')
            if dt is not None and dt is not NONE:
                a = self.number(a, self.dtype(dt))
            a = self.layout(a, kw.get('order'), {'numpy.ascontiguousarray': 'C', 'numpy.asfortranarray': 'F'}.get(n, 'K'))
            if 'ndmin' in kw:
                m = self.num(kw['ndmin'])
                if m == 2 and a.shape == '1':
                    a = a.but(shape='1n', lay='C')
                elif m > 2:
                    raise Unk('ndmin')
            return a
        if n == 'numpy.atleast_2d' and len(args) == 1:
            a = self(args[0])
            return a.but(shape='1n', lay='C') if a.shape == '1' else a
        if n == 'numpy.atleast_1d' and len(args) == 1:
            return self(args[0])
        if n == 'numpy.transpose' and len(args) == 1:
            return self.T(self(args[0]))
        if n in ('numpy.real', 'numpy.imag') and len(args) == 1:
            return self(mk('attr', args[0], n.split('.')[1]))
        if n in ('numpy.reshape',) and len(args) == 2:
            return self.reshape(self(args[0]), list(args[1].args[0]) if args[1].op == 'tuple' else [], t)
        if n == 'numpy.column_stack' and len(args) == 1 and args[0].op in ('tuple', 'list') and len(args[0].args[0]) == 1:
            a = self(args[0].args[0][0])
            return a.but(shape='n1', lay='') if a.shape == '1' else a
        if n == 'numpy.loadtxt':
            return self.loadtxt(args, kw, t)
        raise Unk('call %s' % show(t, 4))

    def loadtxt(self, args, kw, t):
        names = ['fname', 'dtype', 'comments', 'delimiter', 'converters', 'skiprows', 'usecols', 'unpack', 'ndmin']
        k = dict(zip(names, args))
        k.update(kw)
        if k.get('max_rows', NONE) is NONE:
            k.pop('max_rows', None)
        if k.get('skiprows') is const(0):
            k.pop('skiprows')
        # numbers have no comments
        if set(k) - {'fname', 'dtype', 'delimiter', 'ndmin', 'unpack', 'comments', 'encoding'}:
            raise Unk('loadtxt option')
        if k.get('unpack', FALSE) is not FALSE:
            raise Unk('loadtxt option')
        if 'dtype' in k and self.dtype(k['dtype']) != 'd':
            if self.dtype(k['dtype']) == 'o':
                a = self.opts['file'].but(dt='o', what='short')
                raise Short(a)
            raise Unk('loadtxt type')
        nd = self.num(k['ndmin']) if 'ndmin' in k else 0
        a = self.opts['file']
        if nd < 2 and a.shape in ('n1', '1n'):
            return a.but(shape='1')
        return a


class Short(Exception):
    pass


def full(i):
    return i.op == 'slice' and i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE


def size(dt):
    return {'d': 8, 'z': 16, 'w': 8, 'o': 0}[dt]


@prop('D02', 'abstract interpretation of the conversions over number type, memory layout and number of dimensions, up to the savetxt and loadtxt calls', NOTE2)
def d02(c):
    c.rule('saved', 'every real or complex array of one or two dimensions reaches savetxt as its values (real) or as rows of re, im pairs (complex), in double precision')
    c.rule('loaded', 'loading returns the numbers as a two-dimensional real array, or the pairs as complex numbers')
    c.rule('options', 'file name and delimiter reach savetxt and loadtxt, with all digits written')
    c.rule('rejects', 'an odd number of columns cannot be loaded as complex; other files can')
    c.ob('save_array_text', save, c)
    c.ob('save_array_text options', save_options, c)
    c.ob('load_array_text', load, c)
    c.ob('load_array_text options', load_options, c)
    c.ob('load_array_text rejects odd columns', load_rejects, c)


def run_text(q):
    pkg = package('nompi')
    f = pkg.func(q)
    if f is None:
        raise Undecided('%s not found' % q)
    r = Run(pkg, None)
    return r, f, r.deep(r.call(q, None))


def savetxts(r):
    es = [e for e in r.events if e.kind == 'call' and e.d['func'].op == 'ext' and extname(e.d['func']) == 'numpy.savetxt']
    if not es:
        raise Undecided('no call of savetxt')
    return es


def sargs(e, names=('fname', 'X', 'fmt', 'delimiter', 'newline', 'header', 'footer', 'comments', 'encoding')):
    k = dict(zip(names, e.d['args']))
    k.update(dict(e.d['kw']))
    return k


def reached(ev, r, evs):
    out = []
    for e in evs:
        ok = True
        for t, pol in e.pc:
            if ev.truth(t) != pol:
                ok = False
                break
        if ok:
            out.append(e)
    return out


def save(c):
    r, f, v = run_text('util.save_array_text')
    n = 0
    for dt in 'dzow':
        for sh in ('1', 'n1', '1n', 'nm'):
            for lay in ('C', 'F') if sh == 'nm' else ('C',):
                for dl in (None, 'given'):
                    a = A(dt, lay, sh)
                    ev = TextEv({sym('array'): a, sym('delimiter'): dl})
                    what = 'a %s%s %s array' % ({'C': '', 'F': 'Fortran-ordered '}[lay], DT[dt], SHAPES[sh])
                    try:
                        rs = reached(ev, r, raising(r))
                        if rs:
                            c.violate('saved', 'save_array_text', rs[0].loc, '%s is rejected' % what)
                            return False
                        es = reached(ev, r, savetxts(r))
                        if len(es) != 1:
                            if not es:
                                c.violate('saved', 'save_array_text', floc(f), '%s is not written%s' % (what, ' when a delimiter is given' if dl else ''))
                                return False
                            raise Undecided('%d writes' % len(es))
                        x = ev(r.deep(sargs(es[0])['X']))
                    except Fails as e:
                        c.violate('saved', 'save_array_text', floc(f), 'saving %s fails: %s' % (what, e))
                        return False
                    except Unk as e:
                        raise Undecided('%s: %s' % (what, e))
                    want = 'v' if dt in 'do' else 'il'
                    wsh = {'1': ('1', 'n1')}.get(sh, (sh,)) if want == 'v' else {'1': ('n1',)}.get(sh, (sh,))
                    if x.what == want and x.shape in wsh and x.dt == 'd':
                        n += 1
                        continue
                    if x.what == 'v' and x.dt == 'o' and dt == 'o' and x.shape in wsh:
                        n += 1
                        continue
                    if x.what == 'v' and dt in 'zw':
                        c.violate('saved', 'save_array_text', es[0].loc, '%s reaches savetxt as complex numbers, which load_array_text cannot read' % what)
                        return False
                    if x.what != want:
                        c.violate('saved', 'save_array_text', es[0].loc, '%s is written as %s' % (what, WH[x.what]))
                        return False
                    if x.shape not in wsh:
                        c.violate('saved', 'save_array_text', es[0].loc, '%s is written in another shape (%s)' % (what, SHAPES.get(x.shape, 'transposed')))
                        return False
                    raise Undecided('%s: written as %r' % (what, x))
    return '%d combinations' % n


def save_options(c):
    r, f, v = run_text('util.save_array_text')
    for dl in (None, 'given'):
        ev = TextEv({sym('array'): A('d', 'C', 'nm'), sym('delimiter'): dl})
        try:
            es = reached(ev, r, savetxts(r))
        except (Unk, Fails) as e:
            raise Undecided(str(e))
        for e in es:
            k = sargs(e)
            if k.get('fname') is not sym('file_name'):
                raise Undecided('file of savetxt: %s' % show(k.get('fname', NONE), 4))
            d = k.get('delimiter')
            if d is not None:
                while d.op == 'phi':
                    d = d.args[1] if ev.truth(d.args[0]) else d.args[2]
            if dl is None and d is not None and not (d.op == 'const' and isinstance(d.args[0], str) and d.args[0] and d.args[0].isspace()):
                if d is sym('delimiter') or d is NONE:
                    c.violate('options', 'save_array_text', e.loc, 'without a delimiter, None is passed on to savetxt, which writes it between the numbers')
                    return False
                if d.op == 'const':
                    c.violate('options', 'save_array_text', e.loc, 'without a delimiter, %r is written between the numbers, which loading without a delimiter cannot read' % (d.args[0],))
                    return False
                raise Undecided('delimiter')
            if dl is not None and d is not sym('delimiter'):
                if d is None or d.op == 'const':
                    c.violate('options', 'save_array_text', e.loc, 'the delimiter given is not used for writing')
                    return False
                raise Undecided('delimiter %s' % show(d, 4))
            fm = k.get('fmt')
            if fm is not None:
                import re
                m = re.match(r'^%[ +\-#0]*\d*\.(\d+)([eEgGf])$', fm.args[0]) if fm.op == 'const' and isinstance(fm.args[0], str) else None
                if m is None and not (fm.op == 'const' and fm.args[0] in ('%r', '%s')):
                    raise Undecided('format %s' % show(fm, 3))
                if m is not None and (m.group(2) == 'f' or int(m.group(1)) < (16 if m.group(2) in 'eE' else 17)):
                    c.violate('options', 'save_array_text', e.loc, 'the format %s does not write all digits of a double' % fm.args[0])
                    return False
            if set(k) - {'fname', 'X', 'fmt', 'delimiter'}:
                raise Undecided('options %s of savetxt' % sorted(set(k) - {'fname', 'X', 'fmt', 'delimiter'}))
    return ''


def load(c):
    r, f, v = run_text('util.load_array_text')
    n = 0
    for ic in (False, True):
        for sh in ('n1', '1n', 'nm'):
            fsh = {'n1': 'nm', '1n': '1n', 'nm': 'nm'}[sh] if ic else sh
            file_ = A('d', 'C', sh, 'il' if ic else 'v')
            # a complex column is a file of two columns: two-dimensional whatever ndmin is
            one = ic and sh == 'n1'
            opts = {'file': file_.but(shape='nm') if one else file_, sym('is_complex'): ic, sym('delimiter'): None, 'columns': 2, 'rows': 2}
            ev = TextEv(opts)
            what = 'a %s %s' % ('complex' if ic else 'real', {'n1': 'column', '1n': 'row', 'nm': 'array'}[sh])
            try:
                x = ev(v)
            except Short:
                c.violate('loaded', 'load_array_text', floc(f), '%s is read in single precision or as integers' % what)
                return False
            except Fails as e:
                c.violate('loaded', 'load_array_text', floc(f), 'reading %s fails: %s' % (what, e))
                return False
            except Unk as e:
                raise Undecided('%s: %s' % (what, e))
            wsh = 'nm' if one else sh
            if x.shape != wsh:
                c.violate('loaded', 'load_array_text', floc(f), '%s is returned %s' % (what, {'1': 'as a one-dimensional array'}.get(x.shape, 'in another shape (%s)' % SHAPES.get(x.shape, 'transposed'))))
                return False
            if x.what != 'v':
                c.violate('loaded', 'load_array_text', floc(f), '%s is returned as %s' % (what, WH.get(x.what, 'its real or imaginary part only')))
                return False
            if x.dt not in ('z' if ic else 'd'):
                if x.dt in 'ow':
                    c.violate('loaded', 'load_array_text', floc(f), '%s is returned in single precision' % what)
                else:
                    c.violate('loaded', 'load_array_text', floc(f), '%s is returned as a %s array' % (what, DT[x.dt]))
                return False
            n += 1
    return '%d combinations' % n


def loads(r):
    es = [e for e in r.events if e.kind == 'call' and e.d['func'].op == 'ext' and extname(e.d['func']) == 'numpy.loadtxt']
    if not es:
        raise Undecided('no call of loadtxt')
    return es


def load_options(c):
    r, f, v = run_text('util.load_array_text')
    for e in loads(r):
        k = sargs(e, ('fname', 'dtype', 'comments', 'delimiter', 'converters', 'skiprows', 'usecols', 'unpack', 'ndmin'))
        if k.get('fname') is not sym('file_name'):
            raise Undecided('file of loadtxt: %s' % show(k.get('fname', NONE), 4))
        for o in ('max_rows', 'skiprows'):
            x = k.get(o, NONE)
            if x.op == 'const' and isinstance(x.args[0], int) and x.args[0] > 0:
                c.violate('options', 'load_array_text', e.loc, 'not all rows of the file are read: %s is %d' % (o, x.args[0]))
                return False
        d = k.get('delimiter')
        if d is None or d.op == 'const':
            if any(t is mk('cmp', 'is', sym('delimiter'), NONE) and pol for t, pol in e.pc):
                continue
            c.violate('options', 'load_array_text', e.loc, 'the delimiter given is not used for reading')
            return False
        if d is not sym('delimiter'):
            raise Undecided('delimiter %s' % show(d, 4))
    return ''


def load_rejects(c):
    r, f, v = run_text('util.load_array_text')
    for ic, cols, rows, want in [(ic, cols, rows, ic and cols % 2 == 1) for rows in (1, 2, 3, 4) for ic in (True, False) for cols in (1, 2, 3, 4)]:
        sh = 'nm' if cols > 1 else 'n1'
        ev = TextEv({'file': A('d', 'C', sh, 'il'), sym('is_complex'): ic, sym('delimiter'): None, 'columns': cols, 'rows': rows})
        try:
            rs = reached(ev, r, raising(r))
        except (Unk, Fails, Short) as e:
            raise Undecided('%s' % e)
        if want and not rs:
            # numpy itself refuses to view an odd number of doubles per row as complex numbers, with a ValueError
            if any(t.op == 'mcall' and t.args[1] == 'view' for t in walk(v)):
                continue
            c.violate('rejects', 'load_array_text', floc(f), 'a file with %d column%s is loaded as complex numbers' % (cols, 's' if cols > 1 else ''))
            return False
        if not want and rs:
            c.violate('rejects', 'load_array_text', rs[0].loc, 'a file with %d column%s is rejected when %s numbers are requested' % (cols, 's' if cols > 1 else '', 'complex' if ic else 'real'))
            return False
        for x in rs:
            if not value_error(c, x, 'load_array_text'):
                return False
    return ''
