"""D05: user data is never modified."""
from ..common import *
from ..report import prop
from .handles import extname, functions, internal
from .slots import HEAVY

NOTE = ('May-alias analysis over the symbolic execution of every function: every in-place operation (stores, augmented assignments, mutating methods, '
        'overwriting keywords of numpy/scipy calls) is traced to the objects its target may share memory with. numpy view semantics trusted as tabulated; '
        'functions the user supplies are assumed to return data of their own.')
VIEW_CALLS = {'numpy.' + x for x in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'ravel', 'reshape',
                                     'transpose', 'real', 'imag', 'swapaxes', 'rollaxis', 'moveaxis', 'expand_dims', 'broadcast_to', 'flip', 'fliplr', 'flipud',
                                     'diagonal', 'asmatrix', 'require', 'frombuffer', 'rot90', 'split', 'array_split', 'hsplit', 'vsplit', 'real_if_close', 'nan_to_num_')} \
    | {'scipy.linalg.' + x for x in ()}
VIEW_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', 'conj', 'conjugate'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat'}
SAME = {'util.make_iterable'}
INPLACE = {'numpy.fill_diagonal': 0, 'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.put_along_axis': 0,
           'numpy.random.shuffle': 0, 'random.shuffle': 0, 'builtins.setattr': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0}
METHODS = {'sort', 'fill', 'resize', 'itemset', 'partition', 'setflags', 'byteswap', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse',
           'update', 'setdefault', 'popitem', 'discard', '__setitem__', '__iadd__', '__imul__', '__isub__', '__itruediv__', 'setfield'}
FRESH = frozenset()


class Alias(object):
    def __init__(self, r):
        self.r = r
        self.m1, self.m2 = {}, {}
        self.busy = set()

    def roots(self, t):
        return self.fix(t, 0)

    def elems(self, t):
        return self.fix(t, 1)

    def fix(self, t, k):
        m = (self.m1, self.m2)[k]
        if t in m:
            return m[t]
        if (t, k) in self.busy:
            return FRESH
        self.busy.add((t, k))
        v = frozenset((self.roots_, self.elems_)[k](t))
        self.busy.discard((t, k))
        if not self.busy:
            m[t] = v
        return v

    def both(self, t):
        return self.roots(t) | self.elems(t)

    def loop(self, t, f):
        L = self.r.an.loops.get(t.args[0])
        out = FRESH
        if L is not None:
            for d in (L.init, L.back):
                v = d.get(t.args[1])
                if isinstance(v, T) and v.op != 'undef':
                    out = out | f(self.r.deep(v))
        return out

    def roots_(self, t):
        o, a = t.op, t.args
        if o == 'sym':
            return {('argument', a[0])}
        if o == 'ref':
            d = self.r.deep(t)
            return FRESH if d is t else self.roots(d)
        if o == 'cattr':
            return {('class', a[1])}
        if o == 'prim' and a[0].rsplit('.', 1)[-1] in ('_get', 'get'):
            return {('vector', 'self._get' if a[0].endswith('._get') else a[0])}
        if o == 'attr':
            if a[1] in VIEW_ATTRS:
                return self.roots(a[0])
            if a[1] in ('shape', 'ndim', 'size', 'dtype', 'nbytes', 'itemsize', 'strides'):
                return FRESH
            b = self.roots(a[0])
            if a[0] is sym('self'):
                return {('self', a[1])}
            return {x for x in b if x[0] == 'argument' and x[1] != 'self'}
        if o == 'index':
            if basic(a[1]):
                if a[0].op == 'attr' and a[0].args[1] == 'shape':
                    return FRESH
                # element of a container or view of an array
                return self.elems(a[0]) | (self.roots(a[0]) if viewable(a[0]) else FRESH)
            return FRESH
        if o in ('store', 'mutated', 'append', 'delitem'):
            return self.roots(a[0])
        if o == 'phi':
            return self.roots(a[1]) | self.roots(a[2])
        if o in ('mu', 'loopout'):
            return self.loop(t, self.roots)
        if o == 'join':
            return frozenset(x for y in a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, T) for x in self.roots(z))
        if o == 'bool':
            return frozenset(x for y in a[1] for x in self.roots(y))
        if o == 'call':
            n = extname(a[0])
            if n in VIEW_CALLS and a[1]:
                return self.both(a[1][0]) if converts(a[1][0]) else FRESH
            if n == 'numpy.array' and a[1] and dict(a[2]).get('copy', TRUE) is FALSE:
                return self.roots(a[1][0])
            if n == 'numpy.nan_to_num' and a[1] and dict(a[2]).get('copy', TRUE) is FALSE:
                return self.roots(a[1][0])
            if n in ('builtins.iter', 'builtins.next', 'builtins.max', 'builtins.min') and a[1]:
                return self.elems(a[1][0])
            return FRESH
        if o == 'prim' and a[0] in SAME and a[1]:
            return self.roots(a[1][0][1])
        if o == 'mcall':
            if a[1] in VIEW_METHODS:
                return self.roots(a[0])
            if a[1] == 'get' and not a[2] and not a[3]:
                return {('vector', show(a[0], 3) + '.get()')}
            if a[1] == 'astype' and dict(a[3]).get('copy', TRUE) is FALSE:
                return self.roots(a[0])
            if a[1] in ('pop', 'get', 'setdefault') and a[2]:
                return self.elems(a[0])
            return FRESH
        return FRESH

    def elems_(self, t):
        o, a = t.op, t.args
        if o == 'sym':
            return {('argument', a[0])}
        if o == 'ref':
            d = self.r.deep(t)
            return FRESH if d is t else self.elems(d)
        if o in ('list', 'tuple', 'ntuple'):
            return frozenset(x for y in (a[0] if a and isinstance(a[0], tuple) else a) if isinstance(y, T) for x in self.roots(y))
        if o in ('comp',):
            return self.roots(a[2])
        if o == 'listcat':
            return frozenset(x for y in (a[0] if len(a) == 1 and isinstance(a[0], tuple) else a) if isinstance(y, T) for x in self.elems(y))
        if o == 'append':
            return self.elems(a[0]) | self.roots(a[1])
        if o == 'store':
            return self.elems(a[0]) | (self.elems(a[2]) if a[1].op == 'slice' else self.roots(a[2]) if container(a[0]) else FRESH)
        if o == 'mutated':
            return self.elems(a[0])
        if o == 'phi':
            return self.elems(a[1]) | self.elems(a[2])
        if o in ('mu', 'loopout'):
            return self.loop(t, self.elems)
        if o == 'join':
            return frozenset(x for y in a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, T) for x in self.elems(z))
        if o == 'call':
            n = extname(a[0])
            if n in ('builtins.list', 'builtins.tuple', 'builtins.reversed', 'builtins.sorted', 'copy.copy', 'builtins.iter', 'builtins.set') and a[1]:
                return self.elems(a[1][0])
            if n in VIEW_CALLS:
                return self.roots(t)
            return FRESH
        if o == 'index' and a[1].op == 'slice':
            return self.elems(a[0])
        if o in ('attr', 'index', 'prim'):
            return self.roots(t)
        if o == 'mcall' and a[1] in VIEW_METHODS | {'get'}:
            return self.roots(t)
        if o == 'mcall' and a[1] in ('values', 'items', 'copy') and not a[2]:
            return self.elems(a[0]) if a[1] != 'copy' or container(a[0]) else FRESH
        if o == 'bin' and a[0] == '+' and (container(a[1]) or container(a[2])):
            return self.elems(a[1]) | self.elems(a[2])
        if o == 'bin' and a[0] == '*':
            return (self.elems(a[1]) if container(a[1]) else FRESH) | (self.elems(a[2]) if container(a[2]) else FRESH)
        return FRESH


def converts(t):
    """A list, tuple or comprehension is copied by asarray and the like."""
    return t.op not in ('list', 'tuple', 'comp', 'listcat', 'append')


def container(t):
    while t.op in ('store', 'mutated'):
        t = t.args[0]
    if t.op in ('mu', 'loopout'):
        return True
    if t.op == 'phi':
        return container(t.args[1]) or container(t.args[2])
    if t.op == 'bin' and t.args[0] in '*+':
        return container(t.args[1]) or container(t.args[2])
    return t.op in ('list', 'comp', 'listcat', 'append', 'dict', 'tuple') or t.op == 'call' and extname(t.args[0]) in ('builtins.list', 'builtins.dict')


def viewable(t):
    """Not surely a list slice copy."""
    while t.op in ('store', 'mutated'):
        t = t.args[0]
    return t.op not in ('list', 'comp', 'listcat', 'append', 'dict', 'tuple')


def basic(i):
    if i.op == 'tuple':
        return all(basic(x) for x in i.args[0])
    if i.op in ('list', 'comp', 'listcat', 'append', 'cmp', 'not'):
        return False
    if i.op == 'call' and extname(i.args[0]).startswith('numpy.') and extname(i.args[0]) not in ('numpy.argmax', 'numpy.argmin', 'numpy.int64', 'numpy.intp'):
        return False
    if i.op == 'mcall' and i.args[1] in ('argsort', 'nonzero', 'flatten', 'tolist'):
        return False
    return True


@prop('D05', 'may-alias analysis of the target of every in-place operation reached by symbolic execution of each function', NOTE)
def d05(c):
    c.rule('argument', 'no argument, nor anything it contains, is modified in place')
    c.rule('vector', 'no vector returned by a handle is modified in place')
    c.rule('result', 'no stored quantity that the caller gave or can hold is modified in place')
    pkg = package('nompi')
    keep = kept(pkg)
    for world in ('nompi', 'mpiN'):
        pk = package(world)
        for f in functions(pk):
            if internal(pk, f):
                continue
            if f.kind in ('function', 'property') or f.cls is not None:
                c.ob('%s (%s)' % (f.qual, world), one, c, pk, f, keep, world)


def kept(pkg):
    """{class: {attribute: why}} of attributes that hold data the caller also has."""
    out = {}
    for f in functions(pkg):
        if f.cls is None or f.kind != 'function':
            continue
        try:
            r = run_any(pkg, f, None, HEAVY if f.module.name != 'vectorspace' else {})
        except Exception:
            continue
        A = Alias(r)
        ARRAYS.setdefault(f.cls.name, set()).update(array_attrs(r))
        for e in r.events:
            if e.kind == 'attrset' and e.d['base'] is getattr(r, 'self_obj', None):
                rs = [x for x in A.both(r.deep(e.d['value'])) if x[0] == 'argument' and x[1] != 'self']
                if rs:
                    out.setdefault(f.cls.name, {})[e.d['name']] = 'the caller\'s %s' % rs[0][1]
        if r.result is not None:
            for x in A.both(r.deep(r.result)):
                if x[0] == 'self':
                    out.setdefault(f.cls.name, {}).setdefault(x[1], 'returned by %s' % f.name)
    return out


def arrayish(r, p):
    """The argument is used as an array or list somewhere in the function."""
    s = sym(p)
    for e in r.events:
        for v in list(e.d.values()) + [t for t, _ in e.pc]:
            for x in (v if isinstance(v, (list, tuple)) else (v,)):
                if isinstance(x, T):
                    for y in walk(x):
                        if y.op in ('index', 'enum', 'store') and y.args[0] is s:
                            return True
                        if y.op == 'attr' and y.args[0] is s and y.args[1] in ('shape', 'T', 'ndim', 'size', 'real', 'dtype'):
                            return True
                        if y.op == 'call' and s in y.args[1] and extname(y.args[0]) in ('numpy.array', 'numpy.asarray', 'builtins.len', 'numpy.atleast_2d', 'numpy.atleast_1d'):
                            return True
                        if y.op == 'mcall' and y.args[0] is s and y.args[1] in ('dot', 'conj', 'reshape', 'copy', 'squeeze', 'ravel', 'sum'):
                            return True
    return False


def one(c, pkg, f, keep, world):
    prims = dict(HEAVY if f.module.name != 'vectorspace' else {})
    prims['util.make_iterable'] = True
    prims.update((g.qual, True) for g in abstract(pkg))
    prims.pop(f.qual, None)
    try:
        r = run_any(pkg, f, None, prims)
    except LookupError as e:
        raise Undecided(str(e))
    A = Alias(r)
    ok, n = True, 0
    for e in r.events:
        d = e.d
        hits = []       # (target term, what, whole object)
        if e.kind == 'aug':
            hits.append((d['target'], 'operator %s=' % d['op'], True))
        elif e.kind == 'store':
            if d.get('op') == 'aug':
                continue
            hits.append((d['target'], 'an assignment to elements' if d.get('op') != 'out=' else 'out=', False))
        elif e.kind == 'mutcall':
            hits.append((d['target'], 'method %s' % d['name'], False))
        elif e.kind == 'delitem':
            hits.append((d['target'], 'del', False))
        elif e.kind == 'mcall' and d['name'] in METHODS:
            hits.append((d['recv'], 'method %s' % d['name'], False))
        elif e.kind == 'attrset' and d['name'] in ('shape', 'dtype', 'strides', 'data', 'flat', 'real', 'imag'):
            hits.append((d['base'], 'setting attribute %s' % d['name'], False))
        elif e.kind == 'call':
            nm = extname(d['func'])
            if nm in INPLACE and d['args']:
                hits.append((d['args'][INPLACE[nm]], nm, False))
            for k, v in (d['kw'] or ()):
                if k.startswith('overwrite_') and r.deep(v) is TRUE and d['args']:
                    i = 1 if k.endswith('_b') and len(d['args']) > 1 else 0
                    hits.append((d['args'][i], '%s of %s' % (k, nm), False))
                if k == 'out' and r.deep(v) is not NONE and nm.startswith('numpy.'):
                    hits.append((v, 'out= of %s' % nm, False))
        for t, what, whole in hits:
            n += 1
            t = r.deep(t)
            rs = A.roots(t)
            # storing into a container changes the container; aug of an element changes the element
            for x in sorted(rs):
                if x[0] == 'argument':
                    if x[1] in ('self', 'cls'):
                        continue
                    if whole and t is sym(x[1]) and not arrayish(r, x[1]):
                        continue
                    if whole and immutable(r, d.get('value')) and not arrayish(r, x[1]):
                        continue
                    c.violate('argument', f.qual, e.loc, 'the argument %s%s is modified in place by %s' % (x[1], '' if t is sym(x[1]) else ' (or data it contains)', what))
                    ok = False
                elif x[0] == 'vector':
                    c.violate('vector', f.qual, e.loc, 'the vector returned by %s is modified in place by %s' % (x[1], what))
                    ok = False
                elif x[0] == 'class':
                    c.violate('vector', f.qual, e.loc, 'the cached %s, which its owner also holds, is modified in place by %s' % (x[1], what))
                    ok = False
                elif x[0] == 'self' and f.cls is not None:
                    why = [keep[k.name][x[1]] for k in f.cls.mro() if x[1] in keep.get(k.name, {})]
                    if not why or whole and scalar_attr(r, x[1], f.cls):
                        continue
                    c.violate('result', f.qual, e.loc, 'self.%s, which holds %s, is modified in place by %s' % (x[1], why[0], what))
                    ok = False
    if not ok:
        return False
    return '%d in-place operations' % n if n else ''


def abstract(pkg):
    """Methods that subclasses must define: all they do is raise NotImplementedError."""
    import ast
    out = []
    for f in functions(pkg):
        if f.cls is not None and isinstance(f.node, ast.FunctionDef):
            body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, ast.Pass)]
            if len(body) == 1 and isinstance(body[0], ast.Raise) and 'NotImplementedError' in ast.dump(body[0]):
                out.append(f)
    return out


def immutable(r, v):
    return v is not None and r.deep(v).op == 'const'


def scalar_attr(r, name, cls):
    """Nothing in the class uses the attribute as an array: a counter."""
    return not any(name in ARRAYS.get(k.name, ()) for k in cls.mro())


ARRAYS = {}


def array_attrs(r):
    s = sym('self')
    out = set()

    def own(t):
        return t.op == 'attr' and t.args[0] is s
    for e in r.events:
        for v in list(e.d.values()) + [t for t, _ in e.pc]:
            for x in (v if isinstance(v, (list, tuple)) else (v,)):
                if not isinstance(x, T):
                    continue
                for y in walk(r.deep(x)):
                    if y.op in ('index', 'store', 'mcall', 'enum') and own(y.args[0]):
                        out.add(y.args[0].args[1])
                    elif y.op == 'attr' and y.args[1] in ('shape', 'T', 'ndim', 'size') and own(y.args[0]):
                        out.add(y.args[0].args[1])
                    elif y.op == 'call' and extname(y.args[0]).startswith(('numpy.', 'scipy.')):
                        out |= {z.args[1] for z in y.args[1] if own(z)}
    return out
