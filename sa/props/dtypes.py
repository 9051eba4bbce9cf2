"""S02: complex data stays complex (flow of number kinds into storage and casts)."""
from ..common import *
from ..report import prop
from .handles import internal, extname, functions
from .slots import HEAVY
from .alias import abstract
from ..numrun import floc

NOTE = ('Symbolic number kinds (real, complex, the kind of a given argument) are propagated through the symbolic execution of every function. numpy promotion rules '
        'trusted as tabulated; an inner product is assumed to return one kind of number for all vectors, and times, weights of tasks and tolerances to be real.')

# inputs documented to be real
REALS = {'times', 'dt', 'dt_tol', 'atol', 'rtol', 'tol', 'time_values', 'task_weights', 'ranks', 'verbosity', 'print_interval', 'num_states', 'num_modes', 'order', 'mode_indices',
         'max_vecs_per_node', 'num_time_steps', 'num_Markovs', 'index', 'indices', 'coeff_array_col_indices', 'tasks', 'mc', 'mo'}
REAL_FN = {'numpy.' + x for x in ('abs', 'absolute', 'angle', 'isnan', 'isfinite', 'isinf', 'argsort', 'argmax', 'argmin', 'arange', 'linspace', 'shape', 'size', 'ndim', 'count_nonzero',
                                  'hypot', 'fabs', 'rint', 'floor', 'ceil', 'nonzero', 'allclose', 'all', 'any', 'isclose', 'iscomplexobj', 'isrealobj', 'searchsorted', 'loadtxt',
                                  'random.normal', 'random.random', 'random.rand', 'random.randn', 'random.uniform', 'random.standard_normal', 'random.random_sample',
                                  'linalg.norm', 'linalg.cond', 'linalg.matrix_rank', 'linalg.svdvals', 'linalg.eigvalsh', 'indices', 'eye', 'identity', 'sign')} \
    | {'builtins.' + x for x in ('abs', 'len', 'int', 'range', 'bool', 'round', 'isinstance', 'hasattr', 'str')} | {'scipy.linalg.svdvals', 'scipy.linalg.eigvalsh', 'time.time', 'math.sqrt'}
SAME_FN = {'numpy.' + x for x in ('concatenate', 'vstack', 'hstack', 'column_stack', 'stack', 'dstack', 'dot', 'vdot', 'matmul', 'inner', 'outer', 'diag', 'conj', 'conjugate', 'transpose',
                                  'squeeze', 'atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'sum', 'mean', 'cumsum', 'prod', 'diff', 'triu', 'tril', 'copy', 'ascontiguousarray',
                                  'multiply', 'divide', 'add', 'subtract', 'kron', 'trapz', 'einsum', 'tensordot', 'roll', 'flip', 'fliplr', 'flipud', 'tile', 'repeat', 'swapaxes',
                                  'linalg.inv', 'linalg.pinv', 'linalg.solve', 'linalg.lstsq', 'linalg.qr', 'linalg.cholesky', 'linalg.multi_dot', 'negative', 'sqrt', 'exp', 'power',
                                  'asarray', 'array', 'asanyarray', 'asfortranarray', 'take', 'delete', 'insert', 'append', 'where', 'block', 'broadcast_to', 'cumprod', 'diagflat',
                                  'diagonal', 'expand_dims', 'moveaxis', 'rollaxis', 'split', 'trace', 'square')} \
    | {'scipy.linalg.' + x for x in ('inv', 'pinv', 'solve', 'lstsq', 'qr', 'cholesky', 'block_diag', 'hankel', 'toeplitz')} | {'builtins.' + x for x in ('sum', 'list', 'tuple', 'reversed', 'sorted', 'max', 'min')}
EIG = {'numpy.linalg.eig', 'numpy.linalg.eigvals', 'scipy.linalg.eig', 'scipy.linalg.eigvals', 'numpy.roots', 'numpy.fft.fft', 'numpy.fft.rfft', 'numpy.fft.ifft', 'scipy.linalg.schur'}
SAME_M = {'conj', 'conjugate', 'transpose', 'reshape', 'ravel', 'flatten', 'copy', 'squeeze', 'dot', 'sum', 'mean', 'cumsum', 'swapaxes', 'take', 'repeat', 'diagonal', 'prod', 'trace', 'tolist', 'max', 'min'}
REAL_M = {'argsort', 'argmin', 'argmax', 'any', 'all', 'nonzero', 'ptp'}
NEW = {'numpy.zeros': 1, 'numpy.empty': 1, 'numpy.ones': 1, 'numpy.full': 2}
LIKE = {'numpy.zeros_like': 1, 'numpy.empty_like': 1, 'numpy.ones_like': 1, 'numpy.full_like': 2}
CONV = {'numpy.array': 1, 'numpy.asarray': 1, 'numpy.asanyarray': 1, 'numpy.ascontiguousarray': 1, 'numpy.asfortranarray': 1}

REAL = ('real',)
INT = ('integer',)
CPLX = ('complex',)


def kind_const(v):
    if isinstance(v, bool) or isinstance(v, int):
        return {INT}
    if isinstance(v, float):
        return {REAL}
    if isinstance(v, complex):
        return {CPLX}
    return {('?', repr(v))}


class Kinds(object):
    """kinds(t): set of atoms whose promotion is the number kind of t."""

    def __init__(self, r, cls=None):
        self.r, self.memo, self.busy, self.cls = r, {}, set(), cls

    def kinds(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return frozenset()
        self.busy.add(t)
        v = frozenset(self.k(t))
        self.busy.discard(t)
        if not self.busy:
            self.memo[t] = v
        return v

    def many(self, ts):
        out = frozenset()
        for t in ts:
            if isinstance(t, T):
                out |= self.kinds(t)
        return out

    def dtype(self, t):
        """Kinds an explicit dtype stands for."""
        t = self.r.deep(t)
        o, a = t.op, t.args
        n = extname(t)
        if n in ('builtins.float', 'numpy.float64', 'numpy.float_', 'numpy.double', 'numpy.float32', 'numpy.longdouble', 'numpy.float16'):
            return {REAL}
        if n in ('builtins.complex', 'numpy.complex128', 'numpy.complex_', 'numpy.cdouble', 'numpy.complex64', 'numpy.clongdouble'):
            return {CPLX}
        if n in ('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.intp', 'numpy.int_', 'builtins.bool', 'numpy.bool_', 'numpy.uint8'):
            return {INT}
        if o == 'const':
            if a[0] is None:
                return {REAL}
            if isinstance(a[0], str):
                s = a[0].lstrip('<>=')
                return {REAL} if s[:1] in 'fd' or s.startswith('float') or s == 'double' else {CPLX} if s[:1] in 'cDF' or s.startswith('complex') else {INT} if s[:1] in 'iub?' else {('?', a[0])}
        if o == 'attr' and a[1] == 'dtype':
            return self.kinds(a[0])
        if o == 'call' and n == '':
            n = extname(a[0])
            if n == 'builtins.type' and len(a[1]) == 1:
                return self.kinds(a[1][0])
            if n in ('numpy.result_type', 'numpy.promote_types', 'numpy.find_common_type', 'numpy.common_type'):
                out = set()
                for x in a[1]:
                    d = self.dtype(x)
                    out |= self.kinds(x) if any(y[0] == '?' for y in d) else d
                return out | ({REAL} if n == 'numpy.common_type' else set())
            if n == 'numpy.dtype' and a[1]:
                return self.dtype(a[1][0])
        if o == 'phi':
            x, pos = guard(a[0])
            if x is not None:
                c, r_ = (a[1], a[2]) if pos else (a[2], a[1])
                if CPLX in self.dtype(c):
                    return self.kinds(x) | {REAL}
            u, v = self.dtype(a[1]), self.dtype(a[2])
            return u if u == v else {('?', show(t, 3))}
        if o in ('mu', 'loopout'):
            return {('?', show(t, 3))}
        return {('?', show(t, 3))}

    def given(self, a, kw, pos):
        """The dtype argument of a call, if present."""
        k = dict(kw)
        if 'dtype' in k:
            return k['dtype']
        if len(a) > pos:
            return a[pos]
        return None

    def k(self, t):
        o, a = t.op, t.args
        if o == 'const':
            return kind_const(a[0])
        if o == 'sym':
            return {REAL} if a[0] in REALS else {('of', a[0])}
        if o == 'ref':
            d = self.r.deep(t)
            return {('?', 'ref')} if d is t else self.kinds(d)
        if o == 'attr':
            if a[1] in ('shape', 'size', 'ndim', 'nbytes'):
                return {INT}
            if a[1] in ('real', 'imag'):
                return {REAL}
            if a[1] in ('T', 'flat'):
                return self.kinds(a[0])
            if a[0] is sym('self'):
                return {REAL} if a[1] in REALS else {('of', 'self.' + a[1])}
            return {('?', show(t, 3))}
        if o == 'index':
            b = a[0]
            if b.op == 'call' and a[1].op == 'const':
                n, i = extname(b.args[0]), a[1].args[0]
                if n in ('numpy.linalg.svd', 'scipy.linalg.svd'):
                    return {REAL} if i == 1 else self.kinds(b.args[1][0]) | {REAL}
                if n in ('numpy.linalg.eigh', 'scipy.linalg.eigh'):
                    return {REAL} if i == 0 else self.kinds(b.args[1][0]) | {REAL}
                if n in ('numpy.linalg.lstsq', 'scipy.linalg.lstsq'):
                    return self.many(b.args[1][:2]) | {REAL} if i == 0 else {REAL}
            if b.op == 'prim' and a[1].op == 'const' and b.args[0] in ('util.svd', 'util.eigh', 'util.eig_biorthog'):
                return {REAL} if b.args[0] == 'util.svd' and a[1].args[0] == 1 or b.args[0] == 'util.eigh' and a[1].args[0] == 0 else self.kinds(b)
            if b.op in ('list', 'tuple') and a[1].op == 'const' and isinstance(a[1].args[0], int) and -len(b.args[0]) <= a[1].args[0] < len(b.args[0]):
                return self.kinds(b.args[0][a[1].args[0]])
            return self.kinds(b)
        if o in ('store', 'append'):
            if o == 'append' or listy(a[0]):
                return self.kinds(a[0]) | self.kinds(a[-1])
            return self.kinds(a[0])
        if o in ('mutated', 'delitem'):
            return self.kinds(a[0])
        if o == 'phi':
            # a branch that raises leaves nothing behind
            return self.kinds(a[1]) | self.kinds(a[2])
        if o in ('mu', 'loopout'):
            L = self.r.an.loops.get(a[0])
            out = frozenset()
            if L is not None:
                for d in (L.init, L.back):
                    v = d.get(a[1])
                    if isinstance(v, T) and v.op != 'undef':
                        out |= self.kinds(self.r.deep(v))
            return out
        if o in ('lv', 'rangelen', 'range', 'cmp', 'not', 'bool', 'in'):
            return {INT}
        if o in ('list', 'tuple', 'ntuple', 'listcat'):
            return self.many(a[0] if a and isinstance(a[0], tuple) else a)
        if o == 'comp':
            return self.kinds(a[2])
        if o in ('enum', 'reversed'):
            return self.kinds(a[0])
        if o == 'zip':
            return self.many(a[0] if isinstance(a[0], tuple) else a)
        if o == 'un':
            return self.kinds(a[1])
        if o == 'bin':
            return self.kinds(a[1]) | self.kinds(a[2]) | ({REAL} if a[0] in ('/', '**') else set())
        if o == 'call':
            n = extname(a[0])
            if n in NEW:
                d = self.given(a[1], a[2], NEW[n])
                return self.dtype(d) if d is not None else {REAL} if n != 'numpy.full' else self.kinds(a[1][1])
            if n in LIKE:
                d = self.given(a[1], a[2], LIKE[n])
                return self.dtype(d) if d is not None and self.r.deep(d) is not NONE else self.kinds(a[1][0])
            if n in CONV:
                d = self.given(a[1], a[2], CONV[n])
                return self.dtype(d) if d is not None and self.r.deep(d) is not NONE else self.kinds(a[1][0])
            if n in ('builtins.float', 'numpy.float64', 'numpy.real', 'numpy.imag'):
                return {REAL}
            if n in ('builtins.complex', 'numpy.complex128'):
                return {CPLX}
            if n in REAL_FN:
                return {REAL}
            if n == 'numpy.einsum':
                return self.many(a[1][1:])
            if n in SAME_FN:
                return self.many(a[1]) | ({REAL} if 'linalg' in n or n in ('numpy.divide', 'numpy.mean', 'numpy.sqrt', 'numpy.exp') else set())
            if n in EIG:
                return {('eigen', n)}
            if a[0].op == 'attr' and a[0].args[1] == 'inner_product' or a[0] is sym('inner_product'):
                return {('of', 'inner products')}
            return {('?', show(t, 2))}
        if o == 'mcall':
            if a[1] == 'inner_product':
                return {('of', 'inner products')}
            if a[1] == 'astype':
                d = self.given(a[2], a[3], 0)
                return self.dtype(d) if d is not None else {('?', 'astype')}
            if a[1] in SAME_M:
                return self.kinds(a[0]) | self.many(a[2])
            if a[1] in REAL_M:
                return {REAL}
            return {('?', show(t, 2))}
        if o == 'prim':
            f = a[0]
            if 'inner_product' in f:
                return {('of', 'inner products')}
            return {('?', show(t, 2))}
        return {('?', show(t, 2))}


def is_ip(t):
    return t.op == 'mcall' and t.args[1] == 'inner_product' or t.op == 'prim' and t.args[0].endswith('.inner_product') \
        or t.op == 'call' and (t.args[0].op == 'attr' and t.args[0].args[1] == 'inner_product' or t.args[0] is sym('inner_product'))


def samples(K, r, b):
    """The inner products after which the storage b is typed."""
    a = alloc(r, b)
    if a is None or a.op != 'call' or extname(a.args[0]) not in NEW:
        return []
    d = K.given(a.args[1], a.args[2], NEW[extname(a.args[0])])
    return [x for x in walk(r.deep(d)) if is_ip(x)] if d is not None else []


def guard(c):
    """(x, polarity) if the condition asks whether x is complex."""
    pos = True
    while c.op == 'not':
        c, pos = c.args[0], not pos
    if c.op == 'un' and c.args[0] == 'not':
        c, pos = c.args[1], not pos
    if c.op == 'call' and len(c.args[1]) == 1:
        n = extname(c.args[0])
        if n == 'numpy.iscomplexobj':
            return c.args[1][0], pos
        if n == 'numpy.isrealobj':
            return c.args[1][0], not pos
    return None, pos


def listy(t):
    while t.op in ('store', 'mutated'):
        t = t.args[0]
    return t.op in ('list', 'comp', 'listcat', 'append') or t.op == 'bin' and (listy(t.args[1]) or listy(t.args[2]))


def may_complex(ks):
    return sorted(x for x in ks if x[0] in ('of', 'complex', 'eigen'))


def unknown(ks):
    return any(x[0] == '?' for x in ks)


def says(x):
    return {'of': 'complex if %s are' % x[-1], 'complex': 'complex', 'eigen': 'complex in general (it comes from %s)' % x[-1]}[x[0]]


def narrow(K, t):
    """(operand whose imaginary part the expression t itself may discard, kinds it is cast to), or None."""
    o, a = t.op, t.args
    if o == 'attr' and a[1] in ('real', 'imag'):
        return a[0], frozenset([REAL])
    if o == 'call':
        n = extname(a[0])
        if n in ('numpy.real', 'numpy.imag', 'builtins.float', 'builtins.int', 'numpy.float64') and a[1]:
            return a[1][0], frozenset([REAL])
        if n in CONV and a[1]:
            d = K.given(a[1], a[2], CONV[n])
            if d is not None and K.r.deep(d) is not NONE and not unknown(K.dtype(d)):
                return a[1][0], frozenset(K.dtype(d))
    if o == 'mcall' and a[1] == 'astype':
        d = K.given(a[2], a[3], 0)
        if d is not None and not unknown(K.dtype(d)):
            return a[0], frozenset(K.dtype(d))
    return None


def self_product(t):
    """x conj(x), or an inner product of something with itself: real anyway."""
    def bar(x):
        n = 0
        while True:
            if x.op == 'mcall' and x.args[1] in ('conj', 'conjugate'):
                x, n = x.args[0], n + 1
            elif x.op == 'call' and extname(x.args[0]) in ('numpy.conj', 'numpy.conjugate') and x.args[1]:
                x, n = x.args[1][0], n + 1
            elif x.op == 'attr' and x.args[1] == 'T':
                x = x.args[0]
            else:
                return x, n % 2
    if t.op == 'bin' and t.args[0] == '*':
        (x, n), (y, m) = bar(t.args[1]), bar(t.args[2])
        return x is y and n != m
    if t.op == 'mcall' and t.args[1] == 'dot' and len(t.args[2]) == 1:
        (x, n), (y, m) = bar(t.args[0]), bar(t.args[2][0])
        return x is y and n != m
    if t.op in ('call', 'mcall'):
        args = t.args[1] if t.op == 'call' else t.args[2]
        n = extname(t.args[0]) if t.op == 'call' else ''
        if n in ('numpy.diag', 'numpy.diagonal', 'numpy.trace', 'numpy.sum') and args:
            return self_product(args[0])
        if len(args) == 2 and args[0] is args[1]:
            return True
    return False


def flows(t, out, seen):
    """Subterms whose value reaches t (not merely conditions, positions or sizes)."""
    if t in seen:
        return
    seen.add(t)
    out.append(t)
    o, a = t.op, t.args
    if o == 'phi':
        kids = a[1:]
    elif o == 'index':
        kids = a[:1]
    elif o == 'attr' and a[1] in ('shape', 'size', 'ndim', 'dtype'):
        kids = ()
    elif o in ('cmp', 'not', 'bool', 'rangelen', 'range', 'lv', 'mu', 'loopout', 'const', 'sym', 'cattr', 'glob', 'in'):
        kids = ()
    elif o == 'call' and (extname(a[0]) in REAL_FN and extname(a[0]) not in ('numpy.abs', 'builtins.abs', 'numpy.absolute') or extname(a[0]) in NEW or extname(a[0]) in LIKE):
        kids = ()
    elif o == 'comp':
        kids = (a[2],)
    elif o == 'store':
        kids = (a[0], a[2])
    else:
        kids = []

        def add(x):
            if isinstance(x, T):
                kids.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    add(y)
        add(a)
    for k in kids:
        flows(k, out, seen)


@prop('S02', 'number-kind (dtype) flow analysis of every storage allocation, element store, in-place operation and cast', NOTE)
def s02(c):
    c.rule('storage', 'the storage can hold the kind of numbers stored in it')
    c.rule('sample', 'storage for many values is not typed after one of them')
    c.rule('cast', 'nothing that may be complex is cast to real on its way to a result')
    for world in ('nompi', 'mpiN'):
        pk = package(world)
        ab = dict((g.qual, True) for g in abstract(pk))
        for f in functions(pk):
            if internal(pk, f):
                continue
            if f.kind in ('function', 'property') or f.cls is not None:
                c.ob('%s (%s)' % (f.qual, world), one, c, pk, f, ab)


def one(c, pkg, f, ab):
    prims = dict(HEAVY if f.module.name != 'vectorspace' else {})
    prims.update(ab)
    prims.pop(f.qual, None)
    try:
        r = run_any(pkg, f, None, prims)
    except LookupError as e:
        raise Undecided(str(e))
    K = Kinds(r)
    ok, n, vague = True, 0, 0

    def put(e, base, val, what):
        nonlocal ok, n, vague
        b, v = r.deep(base), r.deep(val)
        if listy(b) or b.op == 'dict' or scalar(b):
            return
        if b.op in ('sym',) or b.op == 'attr' and b.args[0] is not sym('self'):
            return
        kb, kv = K.kinds(b), K.kinds(v)
        n += 1
        if CPLX in kb:
            return
        if unknown(kb):
            vague += 1
            return
        one = samples(K, r, b) if ('of', 'inner products') in kv & kb else []
        if one and any(is_ip(x) and not any(x is y for y in one) for x in walk(v)):
            ok = False
            c.violate('sample', 'inner product arrays', e.loc,
                      'the array has the kind of one inner product, %s; others of a wider kind (complex, or real when that one is an integer) lose their imaginary or fractional parts' % show(one[0], 3)[:100])
            return
        bad = [x for x in may_complex(kv) if x not in kb]
        if bad and b.op == 'attr':      # kind of the attribute is only a name here
            return
        if bad:
            ok = False
            c.violate('storage', f.qual, e.loc, '%s puts a value that is %s into an array of kind %s: its imaginary part is lost' % (
                what, says(bad[0]), ', '.join(sorted(' '.join(x) for x in kb)) or 'unknown'))
        elif kb and kb <= {INT} and REAL in kv and not may_complex(kv) and not whole(v):
            ok = False
            c.violate('storage', f.qual, e.loc, '%s puts real numbers into an array of integers: their fractions are lost' % what)
    ends = []
    for e in r.events:
        d = e.d
        if e.kind == 'store' and 'value' in d and isinstance(d['value'], T):
            put(e, d['target'], d['value'], 'the assignment')
            ends.append((e, d['value']))
        elif e.kind == 'aug' and isinstance(d.get('value'), T) and not d.get('name'):
            put(e, d['target'], d['value'], 'operator %s=' % d['op'])
        elif e.kind == 'aug' and isinstance(d.get('value'), T):
            b = r.deep(d['target'])
            b = alloc(r, b)
            if b is not None:
                put(e, b, d['value'], 'operator %s=' % d['op'])
            ends.append((e, d['value']))
        elif e.kind == 'attrset' and isinstance(d['value'], T):
            ends.append((e, d['value']))
        elif e.kind == 'return' and isinstance(d.get('value'), T):
            ends.append((e, d['value']))
        elif e.kind == 'mcall' and d['name'] in ('put', '_put', 'dump', 'append'):
            ends += [(e, x) for x in d['args']]
        elif e.kind in ('call', 'prim', 'mcall') and e.kind != 'mcall':
            xs = d['args'].values() if isinstance(d['args'], dict) else d['args']
            nm = extname(d['func']) if e.kind == 'call' else d['qual']
            if e.kind == 'prim' or nm in ('numpy.save', 'numpy.savetxt', 'pickle.dump', 'numpy.savez'):
                ends += [(e, x) for x in xs if isinstance(x, T)]
    if r.result is not None:
        ends.append((None, r.result))
    told = set()
    for e, v in ends:
        out = []
        flows(r.deep(v), out, set())
        parts, to = {}, {}
        for t in out:
            x = narrow(K, t)
            if x is not None:
                x, to[x] = x
                parts.setdefault(x, set()).add('imag' if t.op == 'attr' and t.args[1] == 'imag' or t.op == 'call' and extname(t.args[0]) == 'numpy.imag' else 'real')
        for x, ps in parts.items():
            n += 1
            if len(ps) == 2 or x in told or self_product(x):
                continue
            ks = K.kinds(x)
            bad = [y for y in may_complex(ks) if y not in to[x] and CPLX not in to[x]]
            if bad and not real_here(e, x):
                told.add(x)
                ok = False
                c.violate('cast', f.qual, e.loc if e is not None else floc(f), 'the imaginary part of %s, which is %s, is discarded on its way to a result' % (show(x, 3)[:120], says(bad[0])))
    if not ok:
        return False
    return '%d stores and casts%s' % (n, ', %d into storage of a kind not known' % vague if vague else '') if n else ''


def real_here(e, x):
    """The path is only taken when x is real."""
    for t, pol in (e.pc if e is not None else ()):
        y, pos = guard(t)
        if y is not None and pos != bool(pol):
            return True
        if t.op in ('call', 'mcall', 'cmp') and any(z.op == 'attr' and z.args[1] == 'imag' for z in walk(t)):
            return True
    return False


def alloc(r, t, seen=()):
    """The array is one that was allocated or converted here (in-place operators keep its dtype)."""
    while t.op in ('store', 'mutated'):
        t = t.args[0]
    if t.op in ('mu', 'loopout') and t not in seen:
        L = r.an.loops.get(t.args[0])
        v = L.init.get(t.args[1]) if L is not None else None
        return alloc(r, r.deep(v), seen + (t,)) if isinstance(v, T) and v.op != 'undef' else None
    if t.op == 'call':
        n = extname(t.args[0])
        if n in NEW or n in LIKE or n in CONV:
            return t
    return None


def scalar(t):
    return t.op == 'const'


def whole(v):
    return any(y.op == 'call' and extname(y.args[0]) in ('numpy.round', 'numpy.rint', 'numpy.floor', 'numpy.ceil', 'numpy.around', 'numpy.arange', 'numpy.sign', 'numpy.argsort', 'numpy.nonzero')
               or y.op == 'mcall' and y.args[1] in ('round', 'argsort', 'astype') for y in walk(v))
