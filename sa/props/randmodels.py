"""N21: the random test systems have the requested sizes and are stable."""
from ..common import *
from ..report import prop
from ..numrun import floc
from ..driver import Run

INF = float('inf')
# size argument: position, or '*' for one argument per dimension; range of the values
RANDOM = {'normal': (2, (-INF, INF)), 'uniform': (2, None), 'random': (0, (0, 1)), 'random_sample': (0, (0, 1)), 'ranf': (0, (0, 1)),
          'standard_normal': (0, (-INF, INF)), 'rand': ('*', (0, 1)), 'randn': ('*', (-INF, INF)), 'exponential': (1, (0, INF))}
PRODUCT = ('numpy.dot', 'numpy.matmul')
SAME = ('numpy.real', 'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray')


class Inner(Exception):
    """Factors that cannot be multiplied."""


def ext_call(t):
    """(name, args, kw) of a call of a library function."""
    if t.op == 'call' and t.args[0].op == 'ext':
        return t.args[0].args[0], t.args[1], dict(t.args[2])
    return None, (), {}


def generator(t):
    n, a, kw = ext_call(t)
    if n is not None and n.startswith('numpy.random.') and n[13:] in RANDOM:
        return n[13:], a, kw
    return None, (), {}


def shape(t):
    """Extents of an array term."""
    g, a, kw = generator(t)
    if g is not None:
        pos = RANDOM[g][0]
        if pos == '*':
            return tuple(a)
        s = kw.get('size', a[pos] if len(a) > pos else NONE)
        if s is NONE:
            return ()
        return tuple(s.args[0]) if s.op in ('tuple', 'list') else (s,)
    n, a, kw = ext_call(t)
    if n == 'numpy.linspace' and (len(a) > 2 or 'num' in kw):
        return (a[2] if len(a) > 2 else kw['num'],)
    if n == 'numpy.arange' and len(a) == 1 and not kw:
        return (a[0],)
    if n in SAME or n in ('numpy.linalg.inv', 'numpy.abs', 'numpy.sort', 'numpy.negative'):
        return shape(a[0])
    if n in ('numpy.diag', 'numpy.diagflat'):
        s = shape(a[0])
        if len(s) != 1:
            raise Undecided('diagonal of %s' % show(a[0], 3))
        return s + s
    if n in ('numpy.zeros', 'numpy.ones', 'numpy.empty') and a:
        return tuple(a[0].args[0]) if a[0].op in ('tuple', 'list') else (a[0],)
    if n == 'numpy.linalg.solve':
        return shape(a[1])
    xy = product(t)
    if xy is not None:
        x, y = shape(xy[0]), shape(xy[1])
        if len(x) == 2 and len(y) == 2:
            if x[1] is not y[0] and all(z.op in ('sym', 'const') for z in (x[1], y[0])):
                raise Inner('%s columns times %s rows' % (show(x[1], 3), show(y[0], 3)))
            return x[0], y[1]
        raise Undecided('product %s' % show(t, 3))
    if t.op == 'un':
        return shape(t.args[1])
    if t.op == 'bin' and t.args[0] in ('+', '-', '*', '/'):
        ss = [s for s in (() if x.op == 'const' else shape(x) for x in t.args[1:]) if s]
        if len(ss) == 1 or (len(ss) == 2 and ss[0] == ss[1]):
            return ss[0]
        if len(ss) == 2 and len(ss[0]) == 2 and len(ss[1]) in (1, 2):
            return tuple(q if p is const(1) else p for p, q in zip(ss[0], ((const(1),) + ss[1])[-2:]))
        if len(ss) == 2 and len(ss[1]) == 2 and len(ss[0]) in (1, 2):
            return tuple(q if p is const(1) else p for p, q in zip(((const(1),) + ss[0])[-2:], ss[1]))
    if t.op == 'index' and newaxis_col(t.args[1]) and len(shape(t.args[0])) == 1:
        return shape(t.args[0]) + (const(1),)
    if t.op == 'attr' and t.args[1] == 'T':
        return tuple(reversed(shape(t.args[0])))
    if t.op == 'attr' and t.args[1] == 'real':
        return shape(t.args[0])
    raise Undecided('shape of %s' % show(t, 3))


def product(t):
    """The two factors of a matrix product."""
    n, a, kw = ext_call(t)
    if n in PRODUCT and len(a) == 2:
        return a
    if t.op == 'bin' and t.args[0] == '@':
        return t.args[1:]
    if t.op == 'mcall' and t.args[1] == 'dot' and len(t.args[2]) == 1:
        return t.args[0], t.args[2][0]
    return None


def factors(t):
    """A as a product of matrices: ('m', T), ('inv', T), ('diag', e)."""
    xy = product(t)
    if xy is not None:
        return factors(xy[0]) + factors(xy[1])
    n, a, kw = ext_call(t)
    if n in SAME:
        return factors(a[0])
    if t.op == 'attr' and t.args[1] == 'real':
        return factors(t.args[0])
    if n == 'numpy.linalg.multi_dot' and a[0].op in ('list', 'tuple'):
        return [f for x in a[0].args[0] for f in factors(x)]
    if n == 'numpy.linalg.inv':
        return [({'m': 'inv', 'inv': 'm'}[k], x) if k != 'diag' else bad(t) for k, x in reversed(factors(a[0]))]
    if n == 'numpy.linalg.solve' and len(a) == 2:
        return factors(mk('call', ext('numpy.linalg.inv'), (a[0],), ())) + factors(a[1])
    if n in ('numpy.diag', 'numpy.diagflat'):
        return [('diag', a[0])]
    if t.op == 'bin' and t.args[0] == '*':
        x, y = t.args[1:]
        for p, q in ((x, y), (y, x)):
            if len(shape_or(p)) == 2 and len(shape_or(q)) == 1:
                return factors(p) + [('diag', q)]
            if len(shape_or(p)) == 2 and q.op == 'index' and newaxis_col(q.args[1]) and len(shape_or(q.args[0])) == 1:
                return [('diag', q.args[0])] + factors(p)
    if generator(t)[0] is not None and len(shape(t)) == 2:
        return [('m', t)]
    if t.op == 'attr' and t.args[1] == 'T' and generator(t.args[0])[0] is not None and len(shape(t.args[0])) == 2:
        return [('m', t)]
    bad(t)


def bad(t):
    raise Undecided('factor %s' % show(t, 4))


def shape_or(t):
    try:
        return shape(t)
    except Undecided:
        return ()


def newaxis_col(i):
    return i.op == 'tuple' and len(i.args[0]) == 2 and i.args[0][0].op == 'slice' and all(x is NONE for x in i.args[0][0].args) and \
        (i.args[0][1] is NONE or i.args[0][1] is ext('numpy.newaxis'))


def num(t):
    if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return float(t.args[0])
    if t.op == 'un' and t.args[0] == '-':
        return -num(t.args[1])
    raise Undecided('number %s' % show(t, 3))


def extent(t):
    """(low, high, whether the bounds are attained) of the elements."""
    g, a, kw = generator(t)
    if g == 'uniform':
        return num(kw.get('low', a[0] if a else const(0))), num(kw.get('high', a[1] if len(a) > 1 else const(1))), False
    if g is not None:
        return RANDOM[g][1] + (False,)
    n, a, kw = ext_call(t)
    if n == 'numpy.linspace':
        x, y = num(a[0]), num(a[1])
        return min(x, y), max(x, y), True
    if n in SAME or n == 'numpy.sort':
        return extent(a[0])
    if n == 'numpy.arange' and len(a) == 1 and not kw and a[0].op == 'sym':
        return 0.0, INF, False
    if n == 'numpy.arange' and len(a) == 2 and not kw and a[1].op == 'sym':
        return num(a[0]), INF, False
    if n in ('numpy.abs', 'builtins.abs'):
        lo, hi, at = extent(a[0])
        return (0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi)), at
    if t.op == 'un' and t.args[0] == '-' or n == 'numpy.negative':
        lo, hi, at = extent(t.args[1] if n is None else a[0])
        return -hi, -lo, at
    if t.op == 'const':
        v = num(t)
        return v, v, True
    if t.op == 'bin' and t.args[0] in ('+', '-', '*', '/'):
        (a0, a1, p), (b0, b1, q) = extent(t.args[1]), extent(t.args[2])
        o = t.args[0]
        if o == '/' and b0 <= 0 <= b1:
            raise Undecided('division %s' % show(t, 3))
        ends = [{'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: 0 if 0 in (x, y) else x * y, '/': lambda x, y: x / y}[o](x, y)
                for x in (a0, a1) for y in (b0, b1)]
        return min(ends), max(ends), p and q
    raise Undecided('values of %s' % show(t, 3))


@prop('N21', 'value-numbering of the returned arrays: extents of each array, similarity transformation of a diagonal array, interval of its diagonal',
      'Exact arithmetic; trusts the ranges of the numpy random generators and that a random transformation is invertible.')
def n21(c):
    c.rule('sizes', 'A is states x states, B states x inputs, C outputs x states')
    c.rule('stable', 'A is similar to a real diagonal array with entries inside the unit circle (discrete time) or not positive (continuous time)')
    for q, kind in (('util.drss', 'discrete'), ('util.rss', 'continuous')):
        c.ob('%s sizes' % q, sizes, c, q)
        c.ob('%s eigenvalues' % q, stable, c, q, kind)


def arrays(q):
    pkg = package('nompi')
    f = pkg.func(q)
    if f is None:
        raise Undecided('%s not found' % q)
    r = Run(pkg)
    v = r.deep(r.call(q))
    if not r.st.alive or v.op not in ('tuple', 'ntuple'):
        raise Undecided('result of %s' % q)
    items = v.args[0] if v.op == 'tuple' else [x[1] if isinstance(x, tuple) else x for x in v.args[-1]]
    if len(items) != 3:
        raise Undecided('%d results' % len(items))
    if [x.arg for x in f.node.args.args][:3] != ['num_states', 'num_inputs', 'num_outputs']:
        raise Undecided('parameters of %s' % q)
    return r, f, items


def sizes(c, q):
    r, f, items = arrays(q)
    n, m, p = sym('num_states'), sym('num_inputs'), sym('num_outputs')
    ok = True
    for name, t, want in zip('ABC', items, ((n, n), (n, m), (p, n))):
        try:
            got = shape(t)
        except Inner as e:
            c.violate('sizes', q, floc(f), '%s computes %s as a product of arrays that do not fit unless the numbers agree: %s' % (q, name, e))
            ok = False
            continue
        if got == want:
            continue
        if not all(x in (n, m, p) or x.op == 'const' for x in got):
            raise Undecided('extents %s' % ', '.join(show(x, 3) for x in got))
        c.violate('sizes', q, floc(f), '%s returns %s of extents (%s) instead of (%s)' % (q, name, ', '.join(show(x, 3) for x in got), ', '.join(show(x, 3) for x in want)))
        ok = False
    return None if ok else False


def stable(c, q, kind):
    r, f, items = arrays(q)
    fs = factors(items[0])
    k = 0
    while k + 1 < len(fs):
        if {fs[k][0], fs[k + 1][0]} == {'m', 'inv'} and fs[k][1] is fs[k + 1][1]:
            del fs[k:k + 2]
            k = max(k - 1, 0)
        else:
            k += 1
    while len(fs) > 1 and {fs[0][0], fs[-1][0]} == {'m', 'inv'} and fs[0][1] is fs[-1][1]:
        fs = fs[1:-1]
    if not fs:
        raise Undecided('no eigenvalues')
    if any(k != 'diag' for k, x in fs):
        c.violate('stable', q, floc(f), '%s: A = %s is not a similarity transformation of its diagonal array of eigenvalues' % (
            q, ' '.join({'m': 'T', 'inv': 'inv(T)', 'diag': 'diag(e)'}[k] for k, x in factors(items[0]))))
        return False
    lo, hi, at = 1.0, 1.0, True
    for k, x in fs:
        a, b, p = extent(x)
        ends = [0 if 0 in (u, v) else u * v for u in (lo, hi) for v in (a, b)]
        lo, hi, at = min(ends), max(ends), at and p
    out = (lo < -1 or hi > 1 or (at and (lo == -1 or hi == 1))) if kind == 'discrete' else (hi > 0)
    if out:
        c.violate('stable', q, floc(f), '%s: the eigenvalues of A range over [%g, %g]: not a stable %s-time system' % (q, lo, hi, kind))
        return False
    return 'eigenvalues in [%g, %g]' % (lo, hi)
