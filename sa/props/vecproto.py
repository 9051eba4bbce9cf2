"""S06: vectors are used only through the documented protocol (+, scalar *, inner product, put, exchange)."""
from ..common import *
from ..report import prop
from ..par import cached_run
from .handles import extname, functions
from .slots import HEAVY

NOTE = ('Kinds (vector, handle, lists of them) are inferred for every value of the symbolic execution of each function from the calls of get() and put(); '
        'every operation on a vector or handle is checked against the documented protocol. Values whose kind is not determined are not judged.')
VEC, HANDLE, NUM, NONEK, BOT, ANY = 'vector', 'handle', 'number', 'none', 'bottom', 'any'


def listof(k):
    return ('list', k)


def join(a, b):
    if a == b or b == BOT:
        return a
    if a == BOT:
        return b
    if NONEK in (a, b):
        return a if b == NONEK else b
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'list':
        return listof(join(a[1], b[1]))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tuple' and len(a) == len(b):
        return ('tuple',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
    return ANY


class Kinds(object):
    def __init__(self, r):
        self.r = r
        self.memo = {}
        self.busy = set()
        self.sent = None

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return BOT
        self.busy.add(t)
        k = self.kind(t)
        self.busy.discard(t)
        if not self.busy or k not in (BOT,):
            self.memo[t] = k
        return k

    def handles_root(self, t):
        n = None
        if t.op == 'sym' and isinstance(t.args[0], str):
            n = t.args[0]
        elif t.op == 'attr':
            n = t.args[1]
        return n is not None and (n.endswith('handles') or n.endswith('handle'))

    def kind(self, t):
        o, a = t.op, t.args
        if o == 'const':
            v = a[0]
            return NONEK if v is None else NUM if isinstance(v, (int, float, complex)) and not isinstance(v, bool) else ANY
        if self.handles_root(t):
            n = t.args[0] if o == 'sym' else t.args[1]
            return HANDLE if n.endswith('handle') else listof(HANDLE)
        if o == 'ref':
            d = self.r.deep(t)
            return ANY if d is t else self(d)
        if o == 'prim' and a[0] == 'util.make_iterable':
            return self(dict(a[1])['arg']) if 'arg' in dict(a[1]) else ANY
        if o == 'mcall':
            if a[1] == 'get' and not a[2] and not a[3]:
                k = self(a[0])
                return VEC if k in (HANDLE, ANY, BOT) else ANY
            if a[1] in ('recv', 'Recv', 'bcast', 'scatter', 'irecv'):
                return self.received()
            if a[1] == 'copy' and isinstance(self(a[0]), tuple):
                return self(a[0])
            return ANY
        if o == 'call':
            n = extname(a[0])
            if n.endswith('.recv') or n.endswith('.bcast'):
                return self.received()
            if n in ('copy.copy', 'copy.deepcopy', 'builtins.list', 'builtins.tuple', 'builtins.reversed', 'builtins.sorted', 'util.make_iterable') and len(a[1]) == 1:
                k = self(a[1][0])
                if n.startswith('builtins') and k == VEC:
                    return ANY
                return k
            return ANY
        if o == 'bin':
            x, y = self(a[1]), self(a[2])
            if a[0] == '+':
                if VEC in (x, y):
                    return VEC
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return join(x, y)
            if a[0] in ('*', '-', '/'):
                if VEC in (x, y) and not (x == VEC and y == VEC and a[0] != '-'):
                    return VEC
                if a[0] == '*' and isinstance(x, tuple):
                    return x
                if a[0] == '*' and isinstance(y, tuple):
                    return y
            return NUM if x == y == NUM else ANY
        if o in ('list', 'tuple', 'ntuple'):
            xs = a[0] if a and isinstance(a[0], tuple) else a
            ks = [self(x) for x in xs if isinstance(x, T)]
            if o == 'list':
                k = BOT
                for x in ks:
                    k = join(k, x)
                return listof(k)
            return ('tuple',) + tuple(ks)
        if o in ('comp', 'flatcomp'):
            return listof(self(a[2])) if o == 'comp' else listof(BOT)
        if o == 'listcat':
            k = BOT
            for x in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a):
                k = join(k, self(x))
            return k
        if o == 'append':
            return join(self(a[0]), listof(self(a[1])))
        if o == 'store':
            b, v = self(a[0]), self(a[2])
            if isinstance(b, tuple) and b[0] == 'list':
                return join(b, v if a[1].op == 'slice' else listof(v))
            return ANY
        if o == 'index':
            b = self(a[0])
            if isinstance(b, tuple) and b[0] == 'list':
                return b if a[1].op == 'slice' else b[1]
            if isinstance(b, tuple) and b[0] == 'tuple' and a[1].op == 'const' and isinstance(a[1].args[0], int) and -len(b) < a[1].args[0] < len(b) - 1:
                return b[1:][a[1].args[0]]
            return ANY
        if o == 'phi':
            return join(self(a[1]), self(a[2]))
        if o in ('mu', 'loopout'):
            L = self.r.an.loops.get(a[0])
            if L is None or a[1] not in L.init and a[1] not in L.back:
                return ANY
            k = BOT
            for d in (L.init, L.back):
                if a[1] in d:
                    v = d[a[1]]
                    if isinstance(v, T) and v.op != 'undef':
                        k = join(k, self(self.r.deep(v)))
            return k
        if o == 'join':
            k = BOT
            for x in a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, T):
                        k = join(k, self(y))
            return k
        return ANY

    def received(self):
        if self.sent is None:
            self.sent = BOT
            k = BOT
            for e in self.r.events:
                n = e.d.get('name') if e.kind == 'mcall' else extname(e.d['func']).split('.')[-1] if e.kind == 'call' else None
                if n in ('isend', 'send', 'Isend', 'Send', 'ssend', 'issend') and e.d['args']:
                    k = join(k, self(self.r.deep(e.d['args'][0])))
            self.sent = k
        return self.sent


ARITH = {'/': '/', '//': '//', '**': '**', '%': '%', '@': '@', '&': '&', '|': '|', '^': '^', '<<': '<<', '>>': '>>'}
TOUCH = ('builtins.abs', 'builtins.len', 'builtins.iter', 'builtins.list', 'builtins.tuple', 'builtins.float', 'builtins.int', 'builtins.complex',
         'builtins.sum', 'builtins.min', 'builtins.max', 'builtins.sorted', 'builtins.set', 'builtins.dict', 'builtins.hash', 'builtins.bool',
         'builtins.round', 'builtins.any', 'builtins.all', 'builtins.zip', 'builtins.map', 'builtins.reversed', 'builtins.enumerate', 'builtins.pow',
         'builtins.divmod', 'builtins.getattr', 'builtins.hasattr', 'builtins.setattr', 'builtins.vars', 'builtins.dir')


@prop('S06', 'kind inference (vector, handle, lists) over the symbolic execution of every function; each operation on a vector or handle is checked against the protocol', NOTE)
def s06(c):
    c.rule('vector', 'a vector is only added to a vector, multiplied by a scalar, put, exchanged, copied, or passed to the inner product (subtracting only in VecHandle.get)')
    c.rule('handle', 'a handle is only asked to get and put')
    c.rule('derived', 'the operations that the recommended base class derives from addition and scalar multiplication are what they say')
    n = 0
    for m, want in (('__rmul__', 'x*a'), ('__sub__', 'x - a')):
        c.ob('vectors.Vector.%s' % m, derived, c, m, want)
    for world in ('nompi', 'mpiN'):
        pkg = package(world)
        for f in functions(pkg):
            if f.kind not in ('function', 'property') or '.tests' in f.module.name or 'example' in f.module.name:
                continue
            if f.module.name == 'vectors' or f.module.name.endswith('.vectors'):
                continue
            heavy = f.qual in HEAVY
            c.ob('%s (%s)' % (f.qual, world), one, c, pkg, f, {} if heavy or f.module.name.split('.')[-1] == 'vectorspace' else HEAVY)
            n += 1


def derived(c, m, want):
    """x.m(a) of the base class, with a subclass's addition and multiplication opaque."""
    from .handles import to_poly, Unk as HUnk, loc_of
    from ..poly import Poly
    pkg = package('nompi')
    cls = pkg.cls('vectors.Vector')
    if cls is None or cls.lookup(m)[0] is None:
        raise Undecided('not found')
    r = Run(pkg, None, {})
    for q, op in (('__mul__', '*'), ('__add__', '+')):
        r.an.prims[cls.qual + '.' + q] = lambda an, args, st, node, env, op=op: mk('bin', op, *args.values())
    o = r.obj(cls.qual, 'x')
    a = sym('a')
    v = r.deep(r.method(o, m, [a]))
    if not r.st.alive:
        c.violate('derived', 'vectors.Vector.' + m, loc_of(cls, m), 'always raises an error')
        return False
    leaf = {o: Poly.atom('x'), a: Poly.atom('a'), r.deep(o): Poly.atom('x')}
    for t in walk(v):
        if t.op == 'call' and len(t.args[1]) == 1 and t.args[1][0] in (a, r.deep(o)) and extname(t.args[0]) in ('builtins.abs', 'numpy.abs', 'numpy.conj', 'numpy.real', 'builtins.float', 'builtins.int', 'numpy.conjugate'):
            leaf[t] = Poly.atom(show(t, 3))
    try:
        got = to_poly(v, leaf)
    except HUnk as e:
        raise Undecided(e)
    spec = Poly.atom('x') * Poly.atom('a') if want == 'x*a' else Poly.atom('x') - Poly.atom('a')
    if got != spec:
        c.violate('derived', 'vectors.Vector.' + m, loc_of(cls, m), 'is %s instead of %s' % (show(v, 6), want))
        return False
    return want


def one(c, pkg, f, prims):
    try:
        r = run_any(pkg, f, None, dict(prims, **{'util.make_iterable': True}), trace=True)
    except LookupError as e:
        raise Undecided(str(e))
    K = Kinds(r)
    # the terms that matter
    n = [0]
    seen = set()

    def bad(e, rule, msg):
        c.violate(rule, f.qual, e.loc, msg)

    ok = True
    for e in r.events:
        if outside(e):
            continue
        d = e.d
        m = None
        if e.kind == 'arith' or e.kind == 'aug':
            m = arith(K, r, e, n)
        elif e.kind == 'mcall':
            k = K(r.deep(d['recv']))
            if k == VEC:
                m = ('vector', 'method %s of a vector is called' % d['name'])
            elif k == HANDLE:
                n[0] += 1
                if d['name'] not in ('get', 'put'):
                    m = ('handle', 'method %s of a vector handle is called' % d['name'])
            if m is None:
                n[0] += sum(K(r.deep(x)) == VEC for x in d['args'])
        elif e.kind == 'call':
            m = call(K, r, e, n)
        elif e.kind == 'store':
            if K(r.deep(d['target'])) == VEC:
                m = ('vector', 'an element of a vector is assigned')
        elif e.kind == 'attrset':
            k = K(r.deep(d['base']))
            if k in (VEC, HANDLE):
                m = ('vector' if k == VEC else 'handle', 'attribute %s of a %s is set' % (d['name'], 'vector' if k == VEC else 'vector handle'))
        elif e.kind == 'mutcall':
            if K(r.deep(d['target'])) == VEC:
                m = ('vector', 'method %s of a vector is called' % d['name'])
        if m is None:
            m = terms_of(K, r, e, seen)
        if m is not None:
            bad(e, *m)
            ok = False
    if not ok:
        return False
    return '%d uses' % n[0] if n[0] else ''


def outside(e):
    return any(fr[0] is not None and getattr(fr[0], 'module', None) is not None and fr[0].module.name.split('.')[-1] == 'vectors' for fr in e.stack if isinstance(fr, tuple)) \
        or 'vectors.py' in str(e.loc)


def arith(K, r, e, n):
    d = e.d
    if e.kind == 'aug':
        x, y = K(r.deep(d['target'])), K(r.deep(d['value'])) if d.get('value') is not None else ANY
    else:
        x, y = K(r.deep(d['a'])), K(r.deep(d['b']))
    if VEC not in (x, y):
        if HANDLE in (x, y) and d['op'] not in ('%',):
            return 'handle', 'operator %s is applied to a vector handle' % d['op']
        return None
    n[0] += 1
    o = d['op']
    if o in ('%',) and x != VEC:
        return None
    if o == '+':
        other = y if x == VEC else x
        if other in (NUM, NONEK) or isinstance(other, tuple):
            return 'vector', 'a vector is added to %s' % {NUM: 'a number', NONEK: 'None'}.get(other, 'a list')
        return None
    if o == '*':
        if x == VEC and y == VEC:
            return 'vector', 'two vectors are multiplied'
        return None
    if o == '-':
        return 'vector', 'vectors are subtracted: only addition and scalar multiplication are required of them'
    if o in ARITH:
        return 'vector', 'operator %s is applied to a vector' % o
    return None


def call(K, r, e, n):
    d = e.d
    nm = extname(d['func'])
    ks = [K(r.deep(x)) for x in d['args']] + [K(r.deep(x)) for _, x in (d['kw'] or ())]
    n[0] += ks.count(VEC)
    arr = nm.startswith(('numpy.', 'scipy.', 'math.', 'cmath.', 'operator.'))
    for k in ks:
        if k == VEC and (arr or nm in TOUCH):
            return 'vector', '%s is applied to a vector' % nm.replace('builtins.', '')
        if k == HANDLE and (arr or nm in TOUCH):
            return 'handle', '%s is applied to a vector handle' % nm.replace('builtins.', '')
        if k == listof(VEC) and (arr or nm in ('builtins.sum', 'builtins.sorted', 'builtins.max', 'builtins.min', 'builtins.set', 'builtins.any', 'builtins.all')):
            return 'vector', '%s is applied to a list of vectors' % nm.replace('builtins.', '')
    return None


def terms_of(K, r, e, seen):
    ts = [t for t, _ in e.pc]
    for k, v in e.d.items():
        for x in (v if isinstance(v, (list, tuple)) else (v,)):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], T):
                x = x[1]
            if isinstance(x, T):
                ts.append(r.deep(x))
    for t in ts:
        if t in seen:
            continue
        for x in walk(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'attr' and x.args[1] not in ('get', 'put'):
                k = K(x.args[0]) if isinstance(x.args[0], T) else ANY
                if k in (VEC, HANDLE):
                    return ('vector' if k == VEC else 'handle'), 'attribute %s of a %s is read' % (x.args[1], 'vector' if k == VEC else 'vector handle')
            elif x.op in ('index', 'slice', 'len', 'enum', 'zip', 'reversed', 'rangelen') and isinstance(x.args[0], T):
                if x.op in ('index', 'enum', 'reversed') and K(x.args[0]) == VEC:
                    return 'vector', 'a vector is indexed or iterated over'
            elif x.op == 'cmp' and x.args[0] in ('==', '<', 'in', '!='):
                if VEC in [K(y) for y in x.args[1:3] if isinstance(y, T)]:
                    return 'vector', 'a vector is compared (%s)' % x.args[0]
            elif x.op == 'un' and K(x.args[1]) == VEC:
                return 'vector', 'operator %s is applied to a vector' % x.args[0]
            elif x.op == 'not' and K(x.args[0]) == VEC:
                return 'vector', 'the truth value of a vector is used'
            elif x.op == 'phi' and K(x.args[0]) == VEC:
                return 'vector', 'the truth value of a vector is used'
        if K(t) == VEC and any(t is p for p, _ in e.pc):
            return 'vector', 'the truth value of a vector is used'
    return None
