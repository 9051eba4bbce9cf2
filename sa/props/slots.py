"""D01: what is loaded into a slot is what was saved from that slot."""
from ..common import *
from ..report import prop
from .handles import extname, is_call, init_params

NOTE = ('Composition of the symbolic effects of every put_ and get_ method: destination -> stored attribute, attribute <- source. The conversion applied '
        'to a loaded array is evaluated on the shapes a stored one- or two-dimensional array comes back with. numpy shape functions trusted.')
ONE_D = ('eigvals', 'sing_vals', 'spectral_coeffs')


@prop('D01', 'composition of the symbolic effects of put_ and get_ methods, with shape evaluation of the conversion of what is loaded', NOTE)
def d01(c):
    c.rule('saved', 'every destination receives the quantity named after it, unchanged, exactly once')
    c.rule('restored', 'the quantity stored under a destination is loaded from the source in the same place into the same attribute')
    c.rule('shape', 'a stored array comes back with its own shape, also when it has a single element, row or column')
    c.rule('functions', 'put_array and get_array given to the constructor are the functions used')
    c.rule('resume', 'after loading everything that can be loaded, later steps use only loaded quantities, constructor settings and their arguments')
    c.rule('reader', 'the default reader returns what the default writer wrote')
    pkg = package('nompi')
    for cls in stores(pkg):
        for m in sorted(io_methods(cls)):
            c.ob('%s.%s' % (cls.qual, m), one_method, c, pkg, cls, m)
        for m in sorted(io_methods(cls)):
            if m.startswith('get_') and 'put_' + m[4:] in io_methods(cls):
                c.ob('%s %s round trip' % (cls.qual, m[4:]), pair, c, pkg, cls, m[4:])
        c.ob('%s constructor' % cls.qual, ctor, c, pkg, cls)
        if 'get_decomp' in io_methods(cls):
            for m in sorted(methods(cls)):
                if m.startswith('compute_') and m not in ('compute_decomp', 'compute_SVD', 'compute_eigendecomp'):
                    c.ob('%s resumed: %s' % (cls.qual, m), resume, c, pkg, cls, m)
        c.ob('%s default reader' % cls.qual, reader, c, pkg, cls)


def stores(pkg):
    out = []
    for m in pkg.modules.values():
        for v in m.env.values():
            if v.op == 'class' and v.args[0].module is m and v.args[0] not in out and io_methods(v.args[0]):
                out.append(v.args[0])
    if not out:
        raise Undecided('no class with put_ methods')
    return sorted(out, key=lambda k: k.qual)


def io_methods(cls):
    out = {}
    for k in cls.mro():
        for n, v in k.ns.items():
            if n.startswith(('put_', 'get_')) and v.op == 'fn' and v.args[0].kind == 'function' and n not in out:
                out[n] = v.args[0]
    return {n: f for n, f in out.items() if params(f)}


def params(f):
    a = f.node.args
    if a.vararg or a.kwarg:
        return []
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


def where_(f):
    return '%s:%d' % (f.module.path if hasattr(f.module, 'path') else f.module.name, f.node.lineno)


def put_effects(pkg, cls, name):
    """{destination parameter: [(value term, event)]}."""
    r = Run(pkg)
    o = r.obj(cls.qual, 'o')
    f = io_methods(cls)[name]
    ps = params(f)
    r.method(o, name)
    if not r.st.alive:
        return r, f, ps, None
    out = {}
    fn = mk('attr', sym('o'), 'put_array')
    for e in r.events:
        if e.kind == 'call' and r.deep(e.d['func']) is fn:
            args = [r.deep(x) for x in e.d['args']]
            if len(args) != 2 or e.d['kw']:
                raise Undecided('call of put_array with %d arguments' % len(args))
            if e.loops:
                raise Undecided('put_array in a loop')
            out.setdefault(args[1], []).append((args[0], e))
    return r, f, ps, out


def get_effects(pkg, cls, name):
    r = Run(pkg)
    o = r.obj(cls.qual, 'o')
    f = io_methods(cls)[name]
    ps = params(f)
    r.method(o, name)
    if not r.st.alive:
        raise Undecided('%s always raises' % name)
    out = {}
    for k, v in r.st.heap.items():
        if k[0] == 'attr' and k[1] == o.args[0]:
            v = r.deep(v)
            if v is not mk('attr', sym('o'), k[2]):
                out[k[2]] = v
    return r, f, ps, out


def quantity(method, p):
    """The attribute a parameter is named after."""
    stem = method[4:]
    for s in ('_dest', '_src'):
        if p.endswith(s) and p != s:
            q = p[:-len(s)]
            return 'adv_' + stem if q == 'adv' else q
    return stem if p in ('dest', 'src') else None


def one_method(c, pkg, cls, name):
    f = io_methods(cls)[name]
    construct = '%s.%s' % (cls.qual.split('.')[-1], name)
    if name.startswith('get_'):
        r, f, ps, eff = get_effects(pkg, cls, name)
        src = mk('attr', sym('o'), 'get_array')
        if not any(is_get(x, src) for v in eff.values() for x in walk(v)):
            raise Undecided('get_array is not called')
        for p in ps:
            q = quantity(name, p)
            hit = [a for a, v in eff.items() if any(x is sym(p) for x in walk(v))]
            if not hit:
                c.violate('restored', construct, where_(f), 'nothing is loaded from %s' % p)
                return False
            if q is None:
                continue
            if len(hit) != 1:
                raise Undecided('%s is loaded into %s' % (p, ', '.join(hit)))
            if hit[0] != q:
                others = {quantity(name, x) for x in ps}
                if hit[0] in others or q in eff:
                    c.violate('restored', construct, where_(f), '%s is loaded into %s, not into %s' % (p, hit[0], q))
                    return False
                raise Undecided('%s is loaded into %s' % (p, hit[0]))
            if not shapes(c, construct, where_(f), q, eff[q], sym(p), src):
                return False
        return '%d sources' % len(ps)
    r, f, ps, eff = put_effects(pkg, cls, name)
    if eff is None:
        if [k for k in cls.mro() if name in k.ns][1:]:
            return 'withdrawn by the class (always raises)'
        raise Undecided('%s always raises' % name)
    if not eff:
        raise Undecided('put_array is not called')
    for d, vs in eff.items():
        if d.op != 'sym' or d.args[0] not in ps:
            raise Undecided('destination %s' % show(d, 4))
    for p in ps:
        vs = eff.get(sym(p), [])
        q = quantity(name, p)
        if not vs:
            c.violate('saved', construct, where_(f), 'nothing is saved to %s' % p)
            return False
        if len(vs) > 1:
            if len({v for v, _ in vs}) == 1 or any(e.pc for _, e in vs):
                raise Undecided('%s is saved to several times' % p)
            c.violate('saved', construct, vs[1][1].loc, '%s is overwritten with %s' % (p, show(vs[1][0], 3)))
            return False
        v, e = vs[0]
        if q is not None and v is not mk('attr', sym('o'), q):
            if v.op == 'attr' and v.args[0] is sym('o'):
                c.violate('saved', construct, e.loc, '%s is saved to %s' % (v.args[1], p))
                return False
            if not same_values(v, mk('attr', sym('o'), q)):
                raise Undecided('%s receives %s' % (p, show(v, 4)))
        for t, pol in e.pc:
            if any(x.op == 'attr' and x.args[0] is sym('o') and x.args[1] == 'verbosity' for x in walk(t)):
                c.violate('saved', construct, e.loc, '%s is saved only for some verbosity' % (q or p))
                return False
            raise Undecided('saved only if %s' % show(t, 4))
    return '%d destinations' % len(ps)


def same_values(v, a):
    while is_call(v, 'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy') and len(v.args[1]) == 1 and not v.args[2]:
        v = v.args[1][0]
    return v is a


def is_get(x, src):
    return x.op == 'call' and x.args[0] is src


# shapes: tuples of '1' (one) and 'n' (two or more)
class Unk(Exception):
    pass


def shape_of(t, leaf, sh):
    if t is leaf:
        return sh
    if t.op == 'call' and len(t.args[1]) >= 1:
        n = extname(t.args[0])
        kw = dict(t.args[2])
        if n in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.squeeze',
                 'numpy.ravel', 'numpy.asfortranarray') and len(t.args[1]) == 1:
            s = shape_of(t.args[1][0], leaf, sh)
            if n == 'numpy.squeeze':
                return squeeze(s, kw.get('axis'))
            if n == 'numpy.ravel':
                return flat(s)
            if n == 'numpy.atleast_1d':
                return s or ('1',)
            if n == 'numpy.atleast_2d':
                return s if len(s) > 1 else ('1',) + (s or ('1',))
            if set(kw) - {'ndmin', 'order', 'dtype', 'copy'} or 'dtype' in kw:
                raise Unk(n)
            if 'ndmin' in kw:
                m = kw['ndmin'].args[0] if kw['ndmin'].op == 'const' else None
                if m is None:
                    raise Unk('ndmin')
                return ('1',) * (m - len(s)) + s
            return s
        if n in ('numpy.diag',) and len(t.args[1]) == 1:
            raise Unk(n)
        if n == 'numpy.reshape' and len(t.args[1]) == 2:
            return reshape(shape_of(t.args[1][0], leaf, sh), t.args[1][1])
    if t.op == 'mcall':
        s = shape_of(t.args[0], leaf, sh)
        kw = dict(t.args[3])
        if t.args[1] in ('ravel', 'flatten') and not t.args[2]:
            return flat(s)
        if t.args[1] == 'squeeze':
            return squeeze(s, t.args[2][0] if t.args[2] else kw.get('axis'))
        if t.args[1] == 'copy':
            return s
        if t.args[1] == 'reshape' and t.args[2]:
            return reshape(s, t.args[2][0] if len(t.args[2]) == 1 else mk('tuple', tuple(t.args[2])))
        if t.args[1] == 'transpose' and not t.args[2]:
            return s[::-1]
    if t.op == 'attr' and t.args[1] == 'T':
        s = shape_of(t.args[0], leaf, sh)
        if len(s) > 1:
            raise Turned()
        return s
    if t.op == 'attr' and t.args[1] == 'flat':
        return flat(shape_of(t.args[0], leaf, sh))
    if t.op == 'index':
        s = shape_of(t.args[0], leaf, sh)
        ix = t.args[1].args[0] if t.args[1].op == 'tuple' else (t.args[1],)
        if len(ix) > len(s):
            raise Fail('an array of %d dimension%s is indexed with %d indices' % (len(s), 's' if len(s) != 1 else '', len(ix)))
        out = []
        for k, i in enumerate(ix):
            if i.op == 'slice' and all(x is NONE for x in i.args):
                out.append(s[k])
            elif i.op == 'const' and i.args[0] in (0, -1):
                if s[k] == 'n':
                    raise Fail('only part of the array is kept')
            else:
                raise Unk('index')
        return tuple(out) + s[len(ix):]
    if t.op == 'phi':
        d = decide(t.args[0], leaf, sh)
        return shape_of(t.args[1] if d else t.args[2], leaf, sh)
    raise Unk(show(t, 4))


class Fail(Exception):
    pass


class Turned(Exception):
    pass


def decide(t, leaf, sh):
    if t.op == 'not':
        return not decide(t.args[0], leaf, sh)
    if t.op == 'bool':
        for x in t.args[1]:
            d = decide(x, leaf, sh)
            if d != (t.args[0] == 'and'):
                return d
        return t.args[0] == 'and'
    if t.op == 'cmp' and t.args[0] in ('<', '=='):
        def num(x):
            if x.op == 'const':
                return x.args[0]
            if x.op == 'attr' and x.args[1] == 'ndim':
                return len(shape_of(x.args[0], leaf, sh))
            if x.op == 'attr' and x.args[1] == 'size':
                return 1 if all(k == '1' for k in shape_of(x.args[0], leaf, sh)) else 2.5
            if is_call(x, 'builtins.len') and x.args[1][0].op == 'attr' and x.args[1][0].args[1] == 'shape':
                return len(shape_of(x.args[1][0].args[0], leaf, sh))
            if x.op == 'index' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape' and x.args[1].op == 'const':
                s = shape_of(x.args[0].args[0], leaf, sh)
                if not -len(s) <= x.args[1].args[0] < len(s):
                    raise Fail('the array has no such dimension')
                return 1 if s[x.args[1].args[0]] == '1' else 2.5
            raise Unk('number %s' % show(x, 4))
        a, b = num(t.args[1]), num(t.args[2])
        if 2.5 in (a, b) and not ({a, b} <= {0, 1, 2.5}):
            raise Unk('size')
        return a < b if t.args[0] == '<' else a == b
    raise Unk('condition %s' % show(t, 4))


def squeeze(s, axis):
    if axis is None or axis is NONE:
        return tuple(x for x in s if x != '1')
    if axis.op == 'const' and isinstance(axis.args[0], int) and -len(s) <= axis.args[0] < len(s):
        k = axis.args[0] % len(s)
        if s[k] != '1':
            raise Fail('a dimension of more than one element is squeezed')
        return s[:k] + s[k + 1:]
    if axis.op == 'const' and isinstance(axis.args[0], int):
        raise Fail('the array has no axis %d' % axis.args[0])
    raise Unk('axis')


def flat(s):
    return ('n',) if 'n' in s else ('1',)


def reshape(s, t):
    ix = t.args[0] if t.op == 'tuple' else (t,)
    if len(ix) == 1 and ix[0].op == 'const' and ix[0].args[0] == -1:
        return flat(s)
    raise Unk('reshape')


def shapes(c, construct, loc, q, v, p, src):
    gets = [x for x in walk(v) if is_get(x, src)]
    if len(set(gets)) != 1:
        raise Undecided('%d loads' % len(set(gets)))
    g = gets[0]
    if list(g.args[1]) != [p] or g.args[2]:
        raise Undecided('source %s' % show(g, 4))
    one = q.endswith(ONE_D)
    cases = [((a,), s) for a in '1n' for s in ((a, '1'), (a,))] if one else [((a, b), (a, b)) for a in '1n' for b in '1n']
    for want, got in cases:
        def sz(s):
            return ' x '.join({'1': '1', 'n': 'n'}[x] for x in s) or 'no dimension'
        try:
            s = shape_of(v, g, got)
        except Unk as e:
            raise Undecided('conversion of %s: %s' % (q, e))
        except Turned:
            c.violate('shape', construct, loc, 'the array loaded into %s is transposed' % q)
            return False
        except Fail as e:
            c.violate('shape', construct, loc, '%s cannot be restored from an array of shape %s: %s' % (q, sz(got), e))
            return False
        if s != want:
            c.violate('shape', construct, loc, '%s of shape %s (read back with shape %s) is restored with shape %s' % (q, sz(want), sz(got), sz(s)))
            return False
    return True


def pair(c, pkg, cls, stem):
    construct = '%s.get_%s' % (cls.qual.split('.')[-1], stem)
    r1, f1, p1, e1 = put_effects(pkg, cls, 'put_' + stem)
    r2, f2, p2, e2 = get_effects(pkg, cls, 'get_' + stem)
    if len(p1) != len(p2):
        c.violate('restored', construct, where_(f2), 'put_%s takes %d destinations but get_%s %d sources' % (stem, len(p1), stem, len(p2)))
        return False
    if e1 is None:
        raise Undecided('always raises')
    for a, b in zip(p1, p2):
        vs = e1.get(sym(a), [])
        if len(vs) != 1:
            raise Undecided('destination %s' % a)
        v = vs[0][0]
        if v.op != 'attr' or v.args[0] is not sym('o'):
            raise Undecided('value of %s' % a)
        hit = [k for k, x in e2.items() if any(y is sym(b) for y in walk(x))]
        if hit != [v.args[1]]:
            c.violate('restored', construct, where_(f2), 'what put_%s saves to its argument %s (%s) is loaded by get_%s from the argument in that place, %s, into %s'
                      % (stem, a, v.args[1], stem, b, ', '.join(hit) or 'nothing'))
            return False
    return '%d slots' % len(p1)


def ctor(c, pkg, cls):
    ps = init_params(cls)
    r = Run(pkg)
    o = r.new(cls.qual, [], [(n, sym(n)) for n in ps])
    n = 0
    for a in ('put_array', 'get_array'):
        if a not in ps:
            continue
        v = r.attr(o, a)
        if v is sym(a):
            n += 1
            continue
        if v.op == 'sym' and v.args[0] in ps:
            c.violate('functions', cls.qual.split('.')[-1], where_(cls.lookup('__init__')[0].args[0]), 'the constructor stores its argument %s as %s' % (v.args[0], a))
            return False
        if v.op in ('fn', 'const'):
            c.violate('functions', cls.qual.split('.')[-1], where_(cls.lookup('__init__')[0].args[0]), 'the constructor ignores its argument %s' % a)
            return False
        raise Undecided('%s is %s' % (a, show(v, 4)))
    return '%d functions' % n


def reader(c, pkg, cls):
    """Defaults: writer save_array_text, reader load_array_text; which quantities of the class are complex for real data as well?"""
    f = cls.lookup('__init__')[0].args[0]
    d = defaults(pkg, f)
    w, g = d.get('put_array'), d.get('get_array')
    if 'get_array' not in params(f):
        return 'the class loads nothing'
    if w is None or g is None:
        raise Undecided('defaults of put_array and get_array')
    if w.op != 'fn' or g.op != 'fn' or (w.args[0].qual, g.args[0].qual) != ('util.save_array_text', 'util.load_array_text'):
        if w.op == 'fn' and g.op == 'fn' and (w.args[0].qual, g.args[0].qual) == ('util.load_array_text', 'util.save_array_text'):
            c.violate('functions', cls.qual.split('.')[-1], where_(f), 'the default reader and writer are exchanged')
            return False
        raise Undecided('default functions')
    ld = defaults(pkg, g.args[0])
    if ld.get('is_complex') is not FALSE:
        raise Undecided('default of is_complex')
    cx = complex_attrs(pkg, cls)
    if cx:
        c.violate('reader', cls.qual.split('.')[-1], where_(f), 'by default %s, which may be complex, is saved as pairs of real numbers and loaded as real data with twice the columns'
                  % ', '.join(sorted(cx)))
        return False
    return ''


def defaults(pkg, f):
    r = Run(pkg)
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = {}
    import ast as _ast
    for x, n in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, n) for x, n in zip(a.kwonlyargs, a.kw_defaults) if n is not None]:
        if isinstance(n, _ast.Constant):
            out[x.arg] = const(n.value)
        else:
            v = None
            try:
                if isinstance(n, _ast.Attribute) and isinstance(n.value, _ast.Name):
                    v = pkg.func('%s.%s' % (n.value.id, n.attr))
                elif isinstance(n, _ast.Name):
                    v = f.module.env.get(n.id)
                    v = v.args[0] if v is not None and v.op == 'fn' else None
            except Exception:
                v = None
            if v is not None:
                out[x.arg] = mk('fn', v)
    return out


def complex_attrs(pkg, cls):
    """Quantities saved by put_decomp that come from a general eigenvalue problem (complex for real data)."""
    names = io_methods(cls)
    if 'put_decomp' not in names or cls.lookup('compute_eigendecomp')[0] is None:
        return set()
    prims = {'util.eig_biorthog': True, 'util.eigh': True, 'util.svd': True}
    r = Run(pkg, None, prims)
    o = r.obj(cls.qual, 'o')
    r.method(o, 'compute_eigendecomp')
    out = set()
    for k, v in r.st.heap.items():
        if k[0] == 'attr' and k[1] == o.args[0]:
            if any(x.op == 'prim' and x.args[0] == 'util.eig_biorthog' for x in walk(r.deep(v))):
                out.add(k[2])
    _, _, ps, eff = put_effects(pkg, cls, 'put_decomp')
    saved = {v.args[1] for vs in eff.values() for v, _ in vs if v.op == 'attr'}
    return out & saved


HEAVY = {'vectorspace.VectorSpaceHandles.' + x: True for x in ('lin_combine', 'compute_inner_product_array', 'compute_symm_inner_product_array')}


def resume(c, pkg, cls, name):
    f = methods(cls)[name]
    r = Run(pkg, None, HEAVY)
    o = r.new(cls.qual, [], [(n, sym(n)) for n in init_params(cls)])
    for g in sorted(io_methods(cls)):
        if g.startswith('get_'):
            r.method(o, g)
    n0 = len(r.events)
    r.method(o, name)
    construct = '%s.%s' % (cls.qual.split('.')[-1], name)
    if not r.st.alive:
        q = Run(pkg, None, HEAVY)
        q.method(q.obj(cls.qual, 'o'), name)
        last = [e for e in r.events[n0:] if e.kind == 'raise']
        if not q.st.alive or not last or not any(e.pc == () or not e.pc for e in last):
            raise Undecided('%s always raises' % name)
        c.violate('resume', construct, last[-1].loc, 'in an object whose decomposition was loaded, %s always raises %s whatever it is given' % (name, show(last[-1].d['exc'], 3)))
        return False
    for e in r.events[n0:]:
        d, what = e.d, None
        if e.pc and not all(sure(t) for t, _ in e.pc):
            continue
        if e.kind == 'prim' and any(r.deep(x) is NONE for k, x in d['args'].items() if k in ('vec_handles', 'basis_vec_handles', 'row_vec_handles', 'col_vec_handles', 'coeffs', 'coefficient_array', 'coeff_array')):
            what = 'vectors or coefficients'
        elif e.kind == 'arith' and NONE in (r.deep(d['a']), r.deep(d['b'])):
            what = 'an operand of %s' % d['op']
        elif e.kind == 'call' and extname(d['func']) in ('numpy.diag', 'builtins.len', 'numpy.dot') and NONE in [r.deep(x) for x in d['args']]:
            what = 'the argument of %s' % extname(d['func']).split('.')[-1]
        elif e.kind == 'mcall' and (r.deep(d['recv']) is NONE or d['name'] == 'dot' and NONE in [r.deep(x) for x in d['args']]):
            what = 'an operand of %s' % d['name']
        if what:
            c.violate('resume', construct, e.loc, 'in an object whose decomposition was loaded, %s uses a quantity that no get_ method restores (%s is None)' % (name, what))
            return False
    return ''


def sure(t):
    return not any(x is NONE for x in walk(t))
