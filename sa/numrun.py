"""Configured abstract runs of the numerical functions and their algebraic values."""
from .common import *
from .la import *

PRIMS = {
    'util.svd': True, 'util.eigh': True, 'util.eig_biorthog': True, 'util.Hankel_chunks': True, 'util.Hankel': True,
    'vectorspace.VectorSpaceHandles.compute_inner_product_array': True,
    'vectorspace.VectorSpaceHandles.compute_symm_inner_product_array': True,
    'vectorspace.VectorSpaceHandles.lin_combine': True,
    'vectorspace.VectorSpaceHandles.sanity_check': True,
    'util.make_iterable': lambda an, a, st, n, env: list(env.values())[0],
}
IPQ = 'vectorspace.VectorSpaceHandles.compute_inner_product_array'
SIPQ = 'vectorspace.VectorSpaceHandles.compute_symm_inner_product_array'
LCQ = 'vectorspace.VectorSpaceHandles.lin_combine'


class Cfg(object):
    """One cell of the input partition."""

    def __init__(self, none=(), wdim=None, trunc=None, name=''):
        self.none, self.wdim, self.trunc = set(none), wdim, trunc
        if trunc is None:
            self.none.add('max_num_eigvals')
        if wdim is None:
            self.none.add('inner_product_weights')
        self.name = name

    def given(self):
        return {n: NONE for n in self.none}

    def assume(self, c):
        if c.op == 'cmp':
            op, a, b = c.args
            if op == 'is' and b is NONE and a.op == 'sym':
                return False
            if op == 'is' and b is NONE and a.op == 'call' and a.args[0].op == 'ext' and a.args[0].args[0].startswith('numpy.'):
                return False
            if is_num(b) and wndim(a):
                return b.args[0] == self.wdim if op == '==' else (self.wdim < b.args[0] if op == '<' else None)
            if is_num(a) and wndim(b):
                return a.args[0] == self.wdim if op == '==' else (a.args[0] < self.wdim if op == '<' else None)
            m = sym('max_num_eigvals')
            if (a is not m and b is not m) or is_num(a) or is_num(b):
                pass
            elif self.trunc is not None and op in ('<', '==') and mentions(c, m):
                x, y = self.size(a), self.size(b)
                if x is not None and y is not None:
                    return x < y if op == '<' else x == y
                other = b if a is m else a
                if op == '<' and other.op in ('attr', 'index', 'call') and not mentions(other, m):
                    return (a is m) == (self.trunc == 'smaller')
                return None
            elif op == '<':
                return b is m
            if op == '==' and a.op == 'attr' and b.op == 'attr' and a.args[1] == 'shape' == b.args[1]:
                return True
            if op == '==' and islen(a) and islen(b):
                return True
        elif c is sym('max_num_eigvals') and self.trunc is not None:
            return True
        return None

    # A factorisation keeps RANK values of ROWS; the limit is one less, or more than both.
    RANK, ROWS, FEWER, MORE = 10, 30, 9, 50

    def size(self, t):
        m = sym('max_num_eigvals')
        if t is m:
            return self.FEWER if self.trunc == 'smaller' else self.MORE
        if is_num(t):
            return t.args[0]
        if t.op == 'bin' and t.args[0] in ('+', '-', '*', '//', '/'):
            x, y = self.size(t.args[1]), self.size(t.args[2])
            if x is None or y is None or (y == 0 and '/' in t.args[0]):
                return None
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '//': lambda: x // y, '/': lambda: Fraction(x) / y}[t.args[0]]()
        if t.op == 'call' and t.args[0].op == 'ext' and not t.args[2]:
            n = t.args[0].args[0]
            if n in ('builtins.len', 'numpy.size') and len(t.args[1]) == 1:
                d = self.shape(t.args[1][0])
                if d is None or (n == 'numpy.size' and len(d) != 1):
                    return None
                return d[0]
            if n in ('builtins.min', 'builtins.max') and len(t.args[1]) > 1:
                v = [self.size(x) for x in t.args[1]]
                return None if None in v else (min(v) if n == 'builtins.min' else max(v))
            if n == 'builtins.int' and len(t.args[1]) == 1:
                v = self.size(t.args[1][0])
                return None if v is None else int(v)
        if t.op == 'attr' and t.args[1] == 'size':
            d = self.shape(t.args[0])
            if d is None or None in d:
                return None
            out = 1
            for x in d:
                out *= x
            return out
        if t.op == 'index' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and is_num(t.args[1]):
            d = self.shape(t.args[0].args[0])
            k = t.args[1].args[0]
            return d[k] if d is not None and -len(d) <= k < len(d) else None
        return None

    def shape(self, t):
        """The shape of a factor, possibly cut."""
        if t.op != 'index':
            return None
        x, i = t.args
        if x.op == 'prim' and x.args[0] in ('util.eigh', 'util.svd') and is_num(i):
            return {('util.eigh', 0): (self.RANK,), ('util.eigh', 1): (self.ROWS, self.RANK), ('util.svd', 0): (self.ROWS, self.RANK),
                    ('util.svd', 1): (self.RANK,), ('util.svd', 2): (self.ROWS, self.RANK)}.get((x.args[0], i.args[0]))
        d = self.shape(x)
        if d is None:
            return None
        ix = i.args[0] if i.op == 'tuple' else (i,)
        if len(ix) > len(d):
            return None
        out = list(d)
        for k, s in enumerate(ix):
            if s.op != 'slice' or d[k] is None:
                return None
            b = [None if y is NONE else self.size(y) for y in s.args]
            if any(u is None and y is not NONE for u, y in zip(b, s.args)) or b[2] == 0:
                return None
            if any(u is not None and int(u) != u for u in b):
                return None
            out[k] = len(range(*slice(*b).indices(d[k])))
        return tuple(out)

    def __str__(self):
        return 'weights %s%s%s%s' % ({None: 'none', 1: '1-D', 2: '2-D'}[self.wdim],
                                     '' if self.trunc is None else ', max_num_eigvals %s' % self.trunc,
                                     ', ' + self.name if self.name else '',
                                     ''.join(', no %s' % n for n in sorted(self.none - {'max_num_eigvals', 'inner_product_weights'})))


def wndim(t):
    """The number of dimensions of the weights."""
    if t.op == 'attr' and t.args[1] == 'ndim':
        t = t.args[0]
    elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'numpy.ndim' and len(t.args[1]) == 1:
        t = t.args[1][0]
    elif islen(t, any=True) and t.args[1][0].op == 'attr' and t.args[1][0].args[1] == 'shape':
        t = t.args[1][0].args[0]
    else:
        return False
    while t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.squeeze') and t.args[1]:
        t = t.args[1][0]
    return t is sym('inner_product_weights')


def islen(t, any=False):
    return t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.len' and (any or t.args[1][0].op == 'sym')


def algebra(cfg, mats):
    """Algebra and converter with the named matrix inputs."""
    A = Algebra(hermitian=['W'])
    inputs = {sym(m): A.inp(m) for m in mats}
    w = sym('inner_product_weights')
    A.samedim[('cols', 'adv_vecs')] = ('cols', 'vecs')
    A.samedim[('rows', 'adv_vecs')] = ('rows', 'vecs')
    if cfg.wdim == 1:
        A.real.add('w')
        inputs[w] = EM(Fraction(1), ((('in', 'w'), 1),))
        W = A.diag(inputs[w])
    elif cfg.wdim == 2:
        inputs[w] = A.inp('W')
        W = A.inp('W')
    else:
        W = A.ident()
    if cfg.trunc == 'notsmaller':
        A.full.add('max_num_eigvals')
    return A, inputs, W


def conv(A, inputs, cfg, W=None, handles=False):
    def hook(cv, t):
        if t.op == 'prim' and t.args[0] in (IPQ, SIPQ):
            d = dict(t.args[1])
            ks = [k for k in d if k != 'self']
            if t.args[0] == IPQ:
                a, b = cv.mat(d[ks[0]]), cv.mat(d[ks[1]])
            else:
                a = b = cv.mat(d[ks[0]])
            return A.prod(A.H(a), W, b)
        if handles and t.op == 'index' and t.args[1].op != 'tuple':
            # a slice of a list of handles selects columns
            v = cv(t.args[0])
            if isinstance(v, Mat) and is_handles(t.args[0]):
                k = cv.idx(t.args[1], A.coldim(v))
                return A.mul(v, A.sel(k))
        if handles and t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.list' and len(t.args[1]) == 1 and is_handles(t.args[1][0]):
            return cv(t.args[1][0])
        return None

    c = Conv(A, inputs, hook, decide=cfg.assume)
    if handles:
        old = c.dimof

        def dimof(t):
            if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.len' and is_handles(t.args[1][0]):
                v = c(t.args[1][0])
                if isinstance(v, Mat):
                    return A.coldim(v)
            return old(t)
        c.dimof = dimof
    return c


def is_handles(t):
    while t.op == 'index' and t.args[1].op == 'slice':
        t = t.args[0]
    return t.op == 'sym'


def hpkg():
    return package('nompi')


def run_arrays(qual, cfg):
    r = Run(hpkg(), assume=cfg.assume, prims=PRIMS)
    f = r.pkg.func(qual)
    if f is None:
        raise Undecided('%s not found' % qual)
    v = r.call(qual, given=cfg.given())
    if not r.st.alive:
        raise Undecided('%s always raises in this case' % qual)
    r.value = r.deep(v)
    return r, f


def fields(r, v):
    """Field name -> term of a record value (a phi of records is merged per field)."""
    if v.op == 'ntuple':
        return {k: r.deep(x) for k, x in zip(v.args[1], v.args[2])}
    if v.op == 'phi':
        arms = [a for a in v.args[1:] if a is not UNDEF]
        fs = [fields(r, a) for a in arms]
        if len(fs) == 1:
            return fs[0]
        if set(fs[0]) == set(fs[1]):
            return {k: mk('phi', v.args[0], fs[0][k], fs[1][k]) for k in fs[0]}
    raise Undecided('result is not a record: %s' % show(v, 3))


def values(cv, term, name, depth=3):
    """The value of the term for every outcome of the comparisons of independent input sizes it depends on."""
    try:
        return [(cv(term), '')]
    except Choice as e:
        if depth == 0:
            raise Undecided('%s: %s' % (name, e))
        out = []
        for pol in (True, False):
            out += [(v, ' when %s is %s%s' % (show(e.cond, 4), pol, w)) for v, w in values(cv.given(e.cond, pol), term, name, depth - 1)]
        return out
    except Unknown as e:
        raise Undecided('%s: %s' % (name, e))


def squeezed(t):
    """The outermost operation that drops dimensions of extent one from the value itself, if any."""
    while True:
        if t.op == 'mcall' and t.args[1] in ('conj', 'conjugate', 'transpose', 'copy', 'astype'):
            t = t.args[0]
        elif t.op == 'attr' and t.args[1] in ('T', 'real'):
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.conj', 'numpy.transpose', 'numpy.copy') and \
                len(t.args[1]) == 1 and not any(k == 'ndmin' for k, _ in t.args[2]):
            t = t.args[1][0]
        elif t.op == 'mcall' and t.args[1] == 'squeeze' and not t.args[2] and not t.args[3] or \
                t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'numpy.squeeze' and len(t.args[1]) == 1 and not t.args[2]:
            return t
        else:
            return None


def compare(c, name, construct, loc, A, cv, term, spec, what, rule='definition', key=None):
    """One obligation: the value term equals the specified algebra value."""
    def go():
        flat = squeezed(term) if isinstance(spec, Mat) else None
        for v, when in values(cv, term, name):
            if flat is not None and isinstance(v, Mat):
                c.violate(rule, key or construct, loc, '%s is not %s: %s leaves a one-dimensional array when the array has a single row or column'
                          % (name, what, show(flat, 2)))
                return False
            if same(A, v, spec):
                continue
            c.violate(rule, key or construct, loc, '%s is not %s%s: computed %r, required %r' % (name, what, when, v, spec))
            return False
        return None
    c.ob(name, go)


def floc(f):
    return '%s:%d' % (f.module.path, f.node.lineno)
