"""D03, D04 (vector handles), S10 (equality), S07 (sanity check), D06 (files)."""
import ast
import itertools
from ..common import *
from ..report import prop
from ..poly import Poly

IO = {'util.load_array_text': True, 'util.save_array_text': True, 'util.smart_eq': True}
CACHE = ('cached_base_vec_handle', 'cached_base_vec')


# ------------------------------------------------------------------------------------------- truth
class Unk(Exception):
    pass


class Touch(Exception):
    """A sub-term had to be evaluated that must not be."""


def extname(t):
    if t.op == 'ext':
        return t.args[0]
    if t.op == 'fn':
        return t.args[0].qual
    return ''


def is_call(t, *names):
    return t.op == 'call' and extname(t.args[0]) in names


def truth(t, atom):
    """Truth of a term; atom(t) -> bool decides the leaves (raises Unk)."""
    if t.op == 'const':
        return bool(t.args[0])
    if t.op == 'phi':
        return truth(t.args[1] if truth(t.args[0], atom) else t.args[2], atom)
    if t.op == 'bool':
        for x in t.args[1]:
            v = truth(x, atom)
            if v != (t.args[0] == 'and'):
                return v
        return t.args[0] == 'and'
    if t.op == 'not':
        return not truth(t.args[0], atom)
    if is_call(t, 'builtins.bool') and len(t.args[1]) == 1:
        return truth(t.args[1][0], atom)
    if is_call(t, 'builtins.all', 'builtins.any') and len(t.args[1]) == 1 and t.args[1][0].op in ('list', 'tuple'):
        vs = [truth(x, atom) for x in t.args[1][0].args[0]]
        return all(vs) if extname(t.args[0]) == 'builtins.all' else any(vs)
    return atom(t)


def resolve(t, atom):
    """Remove conditional choices from a term."""
    if t.op == 'phi':
        return resolve(t.args[1] if truth(t.args[0], atom) else t.args[2], atom)
    if t.op == 'bool':
        for x in t.args[1]:
            v = truth(x, atom)
            if v != (t.args[0] == 'and'):
                break
        return resolve(x, atom)
    args, ch = [], False
    for a in t.args:
        if isinstance(a, T):
            b = resolve(a, atom)
        elif isinstance(a, tuple) and any(isinstance(x, T) for x in a):
            b = tuple(resolve(x, atom) if isinstance(x, T) else x for x in a)
        else:
            b = a
        ch = ch or b is not a
        args.append(b)
    return mk(t.op, *args) if ch else t


def eqpair(t):
    """(a, b, positive) of an equality or inequality test."""
    if t.op == 'cmp' and t.args[0] in ('==', 'is', '!=', 'is not'):
        return t.args[1], t.args[2], not t.args[0].startswith(('!', 'is n'))
    return None


# ------------------------------------------------------------------------------------------- D03, D04
def handle_classes(pkg):
    base = pkg.cls('vectors.VecHandle')
    if base is None:
        raise Undecided('no class vectors.VecHandle')
    out = []
    for m in pkg.modules.values():
        for v in m.env.values():
            if v.op == 'class' and v.args[0] is not base and base in v.args[0].mro() and v.args[0] not in out:
                out.append(v.args[0])
    return base, sorted(out, key=lambda c: c.qual)


def init_params(cls):
    w, _ = cls.lookup('__init__')
    if w is None or w.op != 'fn':
        raise Undecided('%s has no constructor' % cls.qual)
    a = w.args[0].node.args
    if a.vararg or a.kwarg:
        raise Undecided('%s takes variable arguments' % cls.qual)
    return [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]


def defaults(cls):
    """Default values of the constructor's parameters."""
    w, _ = cls.lookup('__init__')
    if w is None or w.op != 'fn':
        return {}
    a = w.args[0].node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    out.update((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
    return {k: NONE if isinstance(d, ast.Constant) and d.value is None else d for k, d in out.items()}


def handle(r, cls, tag='p_'):
    return r.new(cls.qual, [], [(n, sym(tag + n)) for n in init_params(cls)])


def loc_of(cls, name):
    w, _ = cls.lookup(name)
    if w is not None and w.op == 'fn':
        f = w.args[0]
        return '%s:%d' % (f.module.path, f.node.lineno)
    return '%s:%d' % (cls.module.path, cls.node.lineno)


def cattrs(t):
    return [x for x in walk(t) if x.op == 'cattr' and x.args[1] in CACHE]


BASE, SCALE = sym('p_base_vec_handle'), sym('p_scale')


HITS = ('same', 'other', 'empty')
SCALES = ('none', 'zero', 'value')


def case_atom(has_base, scale, hit):
    """has_base; scale in SCALES; hit: what the cache holds, in HITS."""
    def f(t):
        p = eqpair(t)
        if p:
            a, b, pos = resolve(p[0], f), resolve(p[1], f), p[2]
            for x, y in ((a, b), (b, a)):
                if y is NONE and x in (BASE, SCALE):
                    return (not has_base if x is BASE else scale == 'none') == pos
                if y is NONE and x.op == 'cattr' and x.args[1] in CACHE:
                    return (hit == 'empty') == pos
                if x is BASE and y.op == 'cattr' and y.args[1] == CACHE[0]:
                    if not has_base:
                        return (hit == 'empty') == pos
                    return (hit == 'same') == pos
            if a.op == 'const' and b.op == 'const':
                return (a.args[0] == b.args[0]) == pos
            if scale == 'zero' and a.op == 'const' and b is SCALE or a is SCALE and b.op == 'const':
                k = a.args[0] if a.op == 'const' else b.args[0]
                if k == 0:
                    return (scale == 'zero') == pos
        if t is BASE:
            return has_base
        if t is SCALE:
            return scale == 'value'
        if t.op == 'cattr' and t.args[1] == CACHE[0]:
            return hit != 'empty'
        raise Unk('condition %s' % show(t, 6))
    return f


def to_poly(t, leaf):
    if t in leaf:
        return leaf[t]
    if t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        from fractions import Fraction
        return Poly.const(Fraction(t.args[0]))
    if t.op == 'bin' and t.args[0] in ('+', '-', '*'):
        a, b = to_poly(t.args[1], leaf), to_poly(t.args[2], leaf)
        return a + b if t.args[0] == '+' else a - b if t.args[0] == '-' else a * b
    if t.op == 'un' and t.args[0] == '-':
        return to_poly(t.args[1], leaf).scale(-1)
    if t.op == 'mcall' and t.args[1] in ('__mul__', '__rmul__', '__add__', '__sub__') and len(t.args[2]) == 1:
        a, b = to_poly(t.args[0], leaf), to_poly(t.args[2][0], leaf)
        return a + b if 'add' in t.args[1] else a - b if 'sub' in t.args[1] else a * b
    if is_call(t, 'copy.copy', 'copy.deepcopy') and len(t.args[1]) == 1:
        return to_poly(t.args[1][0], leaf)
    if t.op == 'mutated':
        raise Unk('modified in place')
    if t.op == 'mcall' and t.args[1] == '_get' and t.args[0] is BASE:
        return Poly.atom('the base handle\'s vector without its own base and scale')
    if is_call(t, *OTHER) and t.args[1] and t.args[1][0] is SCALE and (len(t.args[1]) == 1 or all(x.op == 'const' for x in t.args[1])):
        return Poly.atom(show(t, 3))
    if t.op == 'attr' and t.args[1] in ('real', 'imag') and t.args[0] is SCALE or t.op == 'mcall' and t.args[1] in ('conj', 'conjugate') and t.args[0] is SCALE:
        return Poly.atom(show(t, 3))
    raise Unk('value %s' % show(t, 5))


# functions of a number that can differ from it
OTHER = ('builtins.abs', 'builtins.int', 'builtins.round', 'builtins.bool', 'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'numpy.real', 'numpy.imag', 'numpy.conj',
         'numpy.conjugate', 'numpy.round', 'numpy.around', 'numpy.floor', 'numpy.ceil', 'numpy.sign', 'numpy.sqrt', 'numpy.square', 'numpy.int64', 'numpy.float32', 'math.floor')


def own_vector(r, o, cls):
    """The stored vector's term: the part of get() that is neither base nor scale."""
    w, _ = cls.lookup('_get')
    if w is None:
        raise Undecided('%s has no _get' % cls.qual)
    return r.deep(r.method(o, '_get'))


def changed_in_place(r, n0, values):
    """Events that modify one of the values in place."""
    out = []
    for e in r.events[n0:]:
        if e.kind in ('aug', 'store', 'mutcall'):
            t = r.deep(e.d['target'])
            while t.op in ('mutated', 'store', 'index', 'slice'):
                t = t.args[0]
            ts = [t]
            if t.op == 'phi':
                ts = [x for x in walk(t)]
            if any(x in values for x in ts):
                out.append((e, t))
    return out


def stored_spec(cls, V):
    """How this class's vector is identified: check V reads the user's vector from where the user said."""
    P = {n: sym('p_' + n) for n in init_params(cls)}
    if 'vec' in P:
        return V is P['vec'], 'the vector given'
    path = P.get('vec_path')
    if path is None:
        raise Undecided('unknown kind of handle')
    if V.op == 'prim' and V.args[0] == 'util.load_array_text':
        d = dict(V.args[1])
        if d.get('file_name') is not path:
            return False, 'read from %s instead of the handle\'s path' % show(d.get('file_name'), 4)
        if 'is_complex' in P and d.get('is_complex') is not P['is_complex']:
            return False, 'loaded with is_complex=%s instead of the handle\'s setting' % show(d.get('is_complex'), 4)
        return True, ''
    if is_call(V, 'pickle.load') and len(V.args[1]) == 1 and is_call(V.args[1][0], 'builtins.open'):
        o = V.args[1][0]
        if not o.args[1] or o.args[1][0] is not path:
            return False, 'read from %s instead of the handle\'s path' % (show(o.args[1][0], 4) if o.args[1] else '?')
        return True, ''
    raise Undecided('stored vector is %s' % show(V, 5))


@prop('D03', 'abstract interpretation of get and put of every handle class, algebraic normal form of the value per case of base and scale, in-place effect analysis',
      'All vectors, bases and scales, every handle class of the package derived from VecHandle. The vectors\' + - * are taken as a linear algebra.')
def d03(c):
    c.rule('value', 'get() = (stored vector - base handle\'s vector) * scale, for each case of base and scale present or not')
    c.rule('stored', 'the stored vector is read from, and put to, the place named by the handle, in the same format')
    c.rule('in-place', 'no in-place operation is applied to the stored vector, the base vector or the vector given to put')
    pkg = package('nompi')
    base, classes = handle_classes(pkg)
    for cls in classes:
        c.note('handle classes')
        c.ob('%s.get' % cls.qual, get_ob, c, cls)
        c.ob('%s.put' % cls.qual, put_ob, c, cls)
    c.ob('VecHandle subclass of a user', user_ob, c, base)


def check_get(c, r, o, cls, V, tag):
    n0 = len(r.events)
    res = r.deep(r.method(o, 'get'))
    if not r.st.alive:
        raise Undecided('get always raises')
    bget = mk('mcall', BASE, 'get', (), ())
    cv = [x for x in walk(res) if x.op == 'cattr' and x.args[1] == CACHE[1]]
    v, b, s = Poly.atom('V'), Poly.atom('B'), Poly.atom('s')
    leaf = {V: v, bget: b, SCALE: s}
    for x in cv:
        leaf[x] = b
    for x in walk(res):
        if x.op == 'mcall' and x.args[0] is BASE and x.args[1] == 'get':
            leaf[x] = b
        elif x.op == 'mcall' and x.args[1] == 'get' and x.args[0].op == 'cattr':
            leaf[x] = b
    ok = True
    for hb, hs in itertools.product((False, True), SCALES):
        for hit in HITS:
            want = (v - b if hb else v)
            want = want * s if hs != 'none' else want
            try:
                t = resolve(res, case_atom(hb, hs, hit))
                if not hb and (bget in walk(t)):
                    c.violate('value', cls.qual + '.get', loc_of(cls, 'get'), 'a base is used although none was given')
                    return False
                got = to_poly(t, leaf)
            except Unk as e:
                raise Undecided('%s%s: %s' % (tag, 'get', e))
            if got != want:
                c.violate('value', cls.qual + '.get', loc_of(cls, 'get'), '%swith%s base and with%s scale, the handle returns %s' % (
                    tag, '' if hb else 'out', {'none': 'out a', 'zero': ' a zero', 'value': ' a'}[hs], show(t, 8)))
                return False
            c.note('cases')
    for e, t in changed_in_place(r, n0, {V, bget} | set(cv)):
        if V is not t or V.op not in ('prim', 'call'):
            c.violate('in-place', cls.qual + '.get', e.loc, 'get modifies %s in place (%s)' % (show(t, 4), e.kind))
            ok = False
        else:
            raise Undecided('the vector just loaded is modified in place: its type may not allow it')
    return ok


def get_ob(c, cls):
    r = Run(package('nompi'), None, IO)
    o = handle(r, cls)
    V = own_vector(r, o, cls)
    ok, why = stored_spec(cls, V)
    if not ok:
        c.violate('stored', cls.qual + '._get', loc_of(cls, '_get'), 'the stored vector is %s: %s' % (show(V, 5), why))
        return False
    return check_get(c, r, o, cls, V, '')


def put_ob(c, cls):
    r = Run(package('nompi'), None, IO)
    o = handle(r, cls)
    P = {n: sym('p_' + n) for n in init_params(cls)}
    v = sym('v')
    n0 = len(r.events)
    r.method(o, 'put', [v])
    if not r.st.alive:
        raise Undecided('put always raises')
    loc = loc_of(cls, '_put')
    who = cls.qual + '._put'
    ev = r.events[n0:]
    for e, t in changed_in_place(r, n0, {v}):
        c.violate('in-place', who, e.loc, 'put modifies the vector it is given')
        return False
    if 'vec' in P:
        V = own_vector(r, o, cls)
        if V is not v:
            if is_call(V, 'copy.copy', 'copy.deepcopy') and V.args[1][0] is v:
                return 'a copy is stored'
            if v in walk(V) or V is P['vec']:
                c.violate('stored', who, loc, 'after put(v) the handle holds %s' % show(V, 5))
                return False
            raise Undecided('after put the handle holds %s' % show(V, 5))
        return check_get(c, r, o, cls, V, 'after a put: ')
    path = P['vec_path']
    V = own_vector(r, o, cls)
    ok, why = stored_spec(cls, V)
    if not ok:
        c.violate('stored', who, loc, 'after put the vector is read elsewhere: %s' % why)
        return False
    if V.op == 'prim':
        sv = [e for e in ev if e.kind == 'prim' and e.d['qual'] == 'util.save_array_text']
        if len(sv) != 1 or sv[0].pc:
            if not sv and not any(e.kind in ('call', 'mcall') for e in ev):
                c.violate('stored', who, loc, 'put writes nothing')
                return False
            raise Undecided('how put writes')
        d = sv[0].d['args']
        d = {k: r.deep(x) for k, x in d.items()}
        dl = dict(V.args[1]).get('delimiter', NONE)
        if d.get('array') is not v or d.get('file_name') is not path or d.get('delimiter', NONE) is not dl:
            c.violate('stored', who, sv[0].loc, 'put saves %s to %s with delimiter %s; get loads the handle\'s path with delimiter %s' % (
                show(d.get('array'), 4), show(d.get('file_name'), 4), show(d.get('delimiter', NONE)), show(dl)))
            return False
        return ''
    dump = [e for e in ev if e.kind == 'call' and extname(r.deep(e.d['func'])) == 'pickle.dump']
    if len(dump) != 1 or dump[0].pc:
        if not dump and not any(e.kind in ('call', 'mcall') for e in ev):
            c.violate('stored', who, loc, 'put writes nothing')
            return False
        raise Undecided('how put writes')
    a = [r.deep(x) for x in dump[0].d['args']]
    if len(a) < 2 or not is_call(a[1], 'builtins.open'):
        raise Undecided('pickle.dump%s' % (tuple(show(x, 4) for x in a),))
    if a[0] is not v or not a[1].args[1] or a[1].args[1][0] is not path:
        c.violate('stored', who, dump[0].loc, 'put saves %s to %s' % (show(a[0], 4), show(a[1], 4)))
        return False
    return ''


def user_ob(c, base):
    """The base class with a user's _get and _put."""
    r = Run(package('nompi'), None, dict(IO))
    got, putted = sym('own'), []
    r.an.prims[base.qual + '._get'] = lambda an, args, st, node, env: got
    r.an.prims[base.qual + '._put'] = lambda an, args, st, node, env: (putted.append(1), NONE)[1]
    o = r.new(base.qual, [], [(n, sym('p_' + n)) for n in init_params(base)])
    res = check_get(c, r, o, base, got, 'user handle: ')
    if res is False:
        return False
    r.method(o, 'put', [sym('v')])
    if not putted:
        c.violate('stored', base.qual + '.put', loc_of(base, 'put'), 'put does not reach the user\'s _put')
        return False
    return ''


class Distinct(object):
    """Takes only the equality of different objects from the comparison check."""

    def __init__(self, c):
        self.c = c

    def violate(self, rule, construct, loc, msg):
        if rule == 'data' and 'although' in msg:
            self.c.violate('equality', construct, loc, msg + ': the cached vector of one is used for the other')
        else:
            raise Undecided(msg)

    def note(self, *a):
        pass


@prop('D04', 'class-state effect analysis: every write of the cache attributes found by abstract interpretation is checked against an inductive invariant, and every use against its guard',
      'Inductive over any history of gets and puts through handles, for every handle class. Changes of a base made other than through a handle\'s put '
      '(another process rewriting its file, in-place changes of the array in memory) are outside: the documentation requires bases not to change.')
def d04(c):
    c.rule('pair', 'the cached handle and the cached vector are written together, the vector being what that handle\'s get returned with no other get in between')
    c.rule('guard', 'the cached vector is used only where the own base handle equals the cached handle')
    c.rule('reset', 'putting a vector empties the cache')
    c.rule('owner', 'nothing else in the package writes the cache')
    c.rule('equality', 'handles of different vectors, base handles or scales do not compare equal')
    pkg = package('nompi')
    base, classes = handle_classes(pkg)
    for cls in classes:
        c.ob('%s equality' % cls.qual, eq_data, Distinct(c), pkg, cls, None)
        c.ob('%s.get' % cls.qual, cache_get, c, cls)
        c.ob('%s.put' % cls.qual, cache_put, c, cls)
    c.ob('initial cache', cache_init, c, base)
    c.ob('writers of the cache', cache_writers, c, pkg, base)


def uses_cache(base):
    return any(isinstance(n, (ast.Attribute, ast.Name)) and (getattr(n, 'attr', None) in CACHE or getattr(n, 'id', None) in CACHE) for n in ast.walk(base.node))


def pckey(e):
    return frozenset(e.pc)


def cache_events(r, n0):
    return [e for e in r.events[n0:] if e.kind in ('classset', 'attrset', 'gstore') and e.d['name'] in CACHE]


def cache_get(c, cls):
    r = Run(package('nompi'), None, IO)
    o = handle(r, cls)
    V = own_vector(r, o, cls)
    n0 = len(r.events)
    res = r.deep(r.method(o, 'get'))
    who = cls.qual + '.get'
    ok = True
    base, _ = handle_classes(package('nompi'))
    evs = cache_events(r, n0)
    for e in evs:
        if e.kind == 'attrset' and r.deep(e.d['base']) is r.deep(o) and any(
                x.kind == 'classset' and x.d['name'] != e.d['name'] and r.deep(x.d['value']) is not NONE for x in evs):
            c.violate('pair', who, e.loc, '%s is written on the handle itself, the other half of the pair on the class' % e.d['name'])
            return False
        if e.kind != 'classset' or e.d['base'].op != 'class' or e.d['base'].args[0] is not base:
            raise Undecided('the cache is written as %s of %s' % (e.kind, show(e.d.get('base', NONE), 3)))
    # pairs, per path: the state of the pair at the end of each path
    gets = [e for e in r.events[n0:] if e.kind == 'mcall' and e.d['name'] == 'get']
    hs = [e for e in evs if e.d['name'] == CACHE[0]]
    vs = [e for e in evs if e.d['name'] == CACHE[1]]
    for e in hs:
        h = r.deep(e.d['value'])
        if h is NONE:
            continue
        mates = [x for x in vs if pckey(x) == pckey(e)]
        if not mates:
            wider = [x for x in vs if pckey(x) < pckey(e)]
            if wider:
                raise Undecided('the cached vector is written on more paths than its handle')
            c.violate('pair', who, e.loc, 'the cached handle becomes %s but the cached vector is not written with it' % show(h, 4))
            return False
        x = mates[-1]
        v = r.deep(x.d['value'])
        lo, hi = sorted((e.seq, x.seq))
        between = [g for g in gets if lo < g.seq < hi]
        if between:
            c.violate('pair', who, between[0].loc, 'another vector is got (which can use and change the cache) after %s was written and before %s' % (
                CACHE[0] if e.seq < x.seq else CACHE[1], CACHE[1] if e.seq < x.seq else CACHE[0]))
            return False
        if v.op == 'mcall' and v.args[1] == 'get' and not v.args[2]:
            if v.args[0] is not h:
                c.violate('pair', who, e.loc, 'cached handle %s with the vector of %s' % (show(h, 4), show(v.args[0], 4)))
                return False
        else:
            if h is BASE and (mk('mcall', BASE, 'get', (), ()) in walk(v) or V in walk(v)):
                c.violate('pair', who, x.loc, 'the cached vector is %s, not what the cached handle returns' % show(v, 5))
                return False
            raise Undecided('cached vector %s' % show(v, 5))
        # a later get must not come after the pair is written from an older value
        if any(g.seq > hi for g in gets):
            raise Undecided('vectors are got after the cache was written')
        c.note('cache writes')
    for x in vs:
        v = r.deep(x.d['value'])
        if v is NONE:
            continue
        if not any(pckey(x) == pckey(e) for e in hs):
            c.violate('pair', who, x.loc, 'the cached vector is replaced but the cached handle is not')
            return False
    # guard of uses: in the case of a miss the cached vector must not be in the value
    for hit in HITS:
        for hs_ in SCALES:
            try:
                t = resolve(res, case_atom(True, hs_, hit))
            except Unk as e:
                raise Undecided(e)
            use = [x for x in cattrs(t) if x.args[1] == CACHE[1]]
            if use and hit != 'same':
                c.violate('guard', who, loc_of(cls, 'get'), 'the cached vector is used although the handle\'s own base is not the cached one')
                return False
            if any(x.args[0] != base.qual for x in use):
                raise Undecided('cache of another class')
            c.note('guarded uses', len(use))
    return ok


def cache_put(c, cls):
    r = Run(package('nompi'), None, IO)
    o = handle(r, cls)
    base, _ = handle_classes(package('nompi'))
    if not uses_cache(base):
        return 'there is no cache'
    n0 = len(r.events)
    r.method(o, 'put', [sym('v')])
    who = base.qual + '.put'
    evs = [e for e in cache_events(r, n0) if e.d['name'] == CACHE[0]]
    for e in evs:
        if e.kind == 'classset' and e.d['base'].op == 'class' and e.d['base'].args[0] is base and r.deep(e.d['value']) is NONE:
            if not e.pc:
                return 'emptied'
            # a handle that stores to the same place with another scale or base does not equal the cached one
            for hb, hs in itertools.product((False, True), SCALES):
                def leaf(t, f=case_atom(hb, hs, 'other'), o=r.deep(o)):
                    p = eqpair(t)
                    if p:
                        for x, y in ((p[0], p[1]), (p[1], p[0])):
                            if y.op == 'cattr' and y.args[1] == CACHE[0] and r.deep(x) is o:
                                return not p[2]
                    return f(t)
                try:
                    skip = any(truth(t, leaf) != pol for t, pol in e.pc)
                except Unk as x:
                    raise Undecided('emptied under a condition: %s' % x)
                if skip:
                    c.violate('reset', who, e.loc, 'put by a handle with%s base and with%s scale that does not equal the cached handle (but can store to the same place) leaves the cache' % (
                        '' if hb else 'out', {'none': 'out a', 'zero': ' a zero', 'value': ' a'}[hs]))
                    return False
            return 'emptied whenever it can matter'
    if evs:
        raise Undecided('how put treats the cache')
    if any(e.kind == 'enter' and e.d['func'].name not in ('put', '_put') for e in r.events[n0:]):
        pass
    reach = [n for m in ('put', '_put') for n in ast.walk(cls.lookup(m)[0].args[0].node)
             if isinstance(n, ast.Attribute) and n.attr in CACHE]
    if reach:
        raise Undecided('how put treats the cache')
    c.violate('reset', who, loc_of(cls, 'put'), 'put leaves the cached base vector of the replaced vector in place: handles whose base equals this one subtract the old vector')
    return False


def cache_init(c, base):
    v = {n: base.ns.get(n) for n in CACHE}
    if not uses_cache(base):
        return 'there is no cache'
    if v[CACHE[0]] is NONE:
        return 'empty'
    if v[CACHE[0]] is None:
        raise Undecided('the cache is not a class attribute of VecHandle')
    raise Undecided('initial cache %s' % show(v[CACHE[0]], 3))


def cache_writers(c, pkg, base):
    bad = []
    for m in pkg.modules.values():
        for n in ast.walk(m.tree):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant) and n.args[1].value in CACHE:
                bad.append((m, n))
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and x.attr in CACHE:
                        bad.append((m, x))
    out = [(m, n) for m, n in bad if m.name != base.module.name]
    for m, n in out:
        raise Undecided('%s:%d writes the cache' % (m.path, n.lineno))
    inside = {id(x) for x in ast.walk(base.node)}
    for m, n in bad:
        if id(n) not in inside:
            raise Undecided('%s:%d writes the cache outside VecHandle' % (m.path, n.lineno))
    c.note('writes of the cache in the source', len(bad))
    return '%d writes, all in VecHandle' % len(bad)


# ------------------------------------------------------------------------------------------- S10
class OtherType(object):
    """`other` is an object of class K (a package class, or None: unrelated)."""

    def __init__(self, cls, K, x):
        self.cls, self.K, self.x = cls, K, x

    def type_of(self, t):
        if t.op == 'class':
            return t.args[0]
        if is_call(t, 'builtins.type') and len(t.args[1]) == 1:
            if t.args[1][0] is self.x:
                return self.K
            return self.cls
        if t.op == 'attr' and t.args[1] == '__class__':
            return self.K if t.args[0] is self.x else self.cls
        raise Unk('type %s' % show(t, 4))

    def __call__(self, t):
        p = eqpair(t)
        if p:
            a, b, pos = p
            try:
                same = self.type_of(a) is self.type_of(b)
                return same == pos
            except Unk:
                pass
        if is_call(t, 'builtins.isinstance') and len(t.args[1]) == 2 and t.args[1][0] is self.x:
            k = t.args[1][1]
            if k.op in ('class',) or is_call(k, 'builtins.type'):
                k = self.type_of(k)
                return self.K is not None and k in self.K.mro()
        for y in walk(t):
            if (y.op == 'attr' and y.args[0] is self.x and y.args[1] not in ('__class__',)) or \
                    (y.op == 'index' and y.args[0] is self.x):
                raise Touch(show(y, 3))
        raise Unk('condition %s' % show(t, 5))


def field_terms(r, o, cls, names):
    return {n: r.attr(o, n) for n in names}


REQUIRED = {'vectors.VecHandleInMemory': None, 'vectors.VecHandleArrayText': None, 'vectors.VecHandlePickle': None,
            'vectorspace.VectorSpaceArrays': ('weights',), 'vectorspace.VectorSpaceHandles': ('inner_product',)}
ARRAYS = {'vec', 'weights'}


@prop('S10', 'truth-table enumeration of the comparison methods\' return value over the agreement of each defining datum and every type of the other operand',
      'All pairs of objects. Comparison of user objects (inner products, base handles, scales) is taken from them; smart_eq is analysed for arrays and other types.')
def s10(c):
    c.rule('data', 'with equal types the result is true exactly when every defining datum agrees')
    c.rule('types', 'with another type the result is False (or NotImplemented) and no attribute of the other object is read')
    c.rule('arrays', 'array-valued data are compared with an array comparison')
    c.rule('negation', '!= is the negation of ==')
    pkg = package('nompi')
    for q, req in sorted(REQUIRED.items()):
        cls = pkg.cls(q)
        if cls is None:
            c.undecided(q, 'no such class')
            continue
        c.note('classes')
        c.ob(q + ' data', eq_data, c, pkg, cls, req)
        c.ob(q + ' types', eq_types, c, pkg, cls)
    c.ob('util.smart_eq', smart, c, pkg)


def eqm(cls, name):
    w, _ = cls.lookup(name)
    return w if w is not None and w.op == 'fn' else None


def two(pkg, cls):
    r = Run(pkg, None, {'util.smart_eq': True})
    ps = init_params(cls)
    o = r.new(cls.qual, [], [(n, sym('p_' + n)) for n in ps])
    x = r.new(cls.qual, [], [(n, sym('q_' + n)) for n in ps])
    if not r.st.alive:
        raise Undecided('constructor raises')
    return r, o, x, ps


def eq_data(c, pkg, cls, req):
    if eqm(cls, '__eq__') is None:
        c.violate('data', cls.qual + '.__eq__', loc_of(cls, '__eq__'), 'no comparison is defined: equal objects compare unequal')
        return False
    r, o, x, ps = two(pkg, cls)
    res = r.deep(r.method(o, '__eq__', [x]))
    ne = eqm(cls, '__ne__')
    neres = r.deep(r.method(o, '__ne__', [x])) if ne is not None else None
    loc = loc_of(cls, '__eq__')
    xd, od = r.deep(x), r.deep(o)
    need = list(req) if req else list(ps)
    pairs = []       # (self term, other term, field)
    for n in ps:
        pairs.append((sym('p_' + n), sym('q_' + n), n))

    def rename(t):
        """p_ parameters replaced by q_."""
        if t.op == 'sym' and isinstance(t.args[0], str) and t.args[0].startswith('p_'):
            return sym('q_' + t.args[0][2:])
        args = []
        for a in t.args:
            if isinstance(a, T):
                a = rename(a)
            elif isinstance(a, tuple):
                a = tuple(rename(y) if isinstance(y, T) else y for y in a)
            args.append(a)
        return mk(t.op, *args)

    def fields_in(t):
        return {y.args[0][2:] for y in walk(t) if y.op == 'sym' and isinstance(y.args[0], str) and y.args[0].startswith('p_')}

    class TruthOfArray(Exception):
        pass

    def atom(E):
        ot = OtherType(cls, cls, xd)

        def compare_terms(a, b, arrays, pos):
            if a.op in ('tuple', 'list') and b.op == a.op and len(a.args[0]) == len(b.args[0]):
                vs = [compare_terms(y, z, False, True) for y, z in zip(a.args[0], b.args[0])]
                return all(vs) == pos
            for y, z in ((a, b), (b, a)):
                f = fields_in(y)
                if len(f) == 1 and rename(y) is z:
                    n = next(iter(f))
                    if n in ARRAYS and not arrays:
                        raise TruthOfArray(n)
                    return agrees(E[n]) == pos
            if not fields_in(a) and not fields_in(b) and a is b:
                return pos
            raise Unk('%s compared with %s' % (show(a, 4), show(b, 4)))

        def f(t):
            p = eqpair(t)
            if p:
                try:
                    return ot(t)
                except (Unk, Touch):
                    pass
                if t.args[0] in ('is', 'is not'):
                    if NONE in p[:2]:
                        v = p[0] if p[1] is NONE else p[1]
                        f_ = fields_in(v)
                        if v is NONE:
                            return p[2]
                        if len(f_) == 1 and v is sym('p_' + next(iter(f_))):
                            return (E[next(iter(f_))][0] == 'N') == p[2]
                        if v.op == 'sym' and v.args[0][:2] == 'q_' and v.args[0][2:] in E:
                            return (E[v.args[0][2:]][1] == 'N') == p[2]
                        raise Unk('test for None')
                    raise Unk('identity test')
                return compare_terms(p[0], p[1], False, p[2])
            if is_call(t, 'builtins.isinstance'):
                return ot(t)
            if t.op == 'prim' and t.args[0] == 'util.smart_eq':
                d = dict(t.args[1])
                return compare_terms(d['arg1'], d['arg2'], True, True)
            if is_call(t, 'numpy.array_equal', 'numpy.all', 'builtins.all') and len(t.args[1]) == 2:
                return compare_terms(t.args[1][0], t.args[1][1], True, True)
            if t.op == 'mcall' and t.args[1] == 'all' and not t.args[2] and eqpair(t.args[0]):
                raise Unk('elementwise comparison')
            raise Unk('condition %s' % show(t, 5))
        return f
    optional = [n for n in ps if n not in need]
    nones = {m for m in ps if defaults(cls).get(m) is NONE} if any(NONE in t.args for u in (res, neres) if u is not None for t in walk(u) if t.op == 'cmp') else ()

    def states(m):
        return ('SS=', 'SS#') + (('NN=', 'NS#', 'SN#') if m in nones else ())

    def agrees(v):
        return v[2] == '='
    n = 0
    for vals in itertools.product(*([states(m) for m in need] + ([('SS=', 'SS#')] if optional else []))):
        E = dict(zip(need, vals))
        for m in optional:
            E[m] = vals[-1]
        try:
            got = truth(res, atom(E))
            gne = truth(neres, atom(E)) if neres is not None else None
        except Unk as e:
            raise Undecided(e)
        except TruthOfArray as e:
            c.violate('arrays', cls.qual + '.__eq__', loc, 'the truth value of an elementwise comparison of %s is used: comparing arrays fails' % e)
            return False
        agree = all(agrees(E[m]) for m in need)
        n += 1
        if got and not agree:
            c.violate('data', cls.qual + '.__eq__', loc, 'two objects compare equal although they differ in %s' % ', '.join(m for m in need if not agrees(E[m])))
            return False
        if not got and all(agrees(v) for v in E.values()):
            c.violate('data', cls.qual + '.__eq__', loc, 'two objects whose data all agree compare unequal')
            return False
        if gne is not None and gne == got:
            c.violate('negation', cls.qual + '.__ne__', loc_of(cls, '__ne__'), '!= gives %s where == gives %s' % (gne, got))
            return False
    c.note('truth-table rows', n)
    return '%d rows' % n


def eq_types(c, pkg, cls):
    if eqm(cls, '__eq__') is None:
        return ''
    kinds = [None]
    for q in list(REQUIRED):
        k = pkg.cls(q)
        if k is not None and k is not cls:
            kinds.append(k)
    for name, want in (('__eq__', False), ('__ne__', True)):
        if eqm(cls, name) is None:
            continue
        r = Run(pkg, None, {'util.smart_eq': True})
        ps = init_params(cls)
        o = r.new(cls.qual, [], [(n, sym('p_' + n)) for n in ps])
        x = sym('x')
        res = r.deep(r.method(o, name, [x]))
        for K in kinds:
            ot = OtherType(cls, K, x)
            loc = loc_of(cls, name)
            try:
                t = resolve(res, ot) if res.op == 'phi' else res
                if t.op == 'const' or t.op in ('bool', 'not', 'cmp', 'phi', 'call', 'prim'):
                    got = truth(t, ot)
                elif t.op == 'ext' and t.args[0].endswith('NotImplemented'):
                    continue
                else:
                    raise Unk('returns %s' % show(t, 4))
            except Unk as e:
                raise Undecided(e)
            except Touch as e:
                c.violate('types', '%s.%s' % (cls.qual, name), loc, 'compared with %s, it reads %s' % (
                    'a ' + K.name if K is not None else 'an object of an unrelated type', e))
                return False
            if got != want:
                c.violate('types', '%s.%s' % (cls.qual, name), loc, 'compared with %s, the result is %s' % (
                    'a ' + K.name if K is not None else 'an object of an unrelated type', got))
                return False
            c.note('types of the other operand')
    return ''


def smart(c, pkg):
    r = Run(pkg, None, {})
    a, b = sym('a'), sym('b')
    f = pkg.func('util.smart_eq')
    if f is None:
        raise Undecided('no smart_eq')
    res = r.deep(r.call('util.smart_eq', [a, b]))
    loc = '%s:%d' % (f.module.path, f.node.lineno)
    who = 'util.smart_eq'

    def shape(x):
        return mk('attr', x, 'shape')

    def flat(t):
        """The argument a value is the flattened elements of."""
        if t.op == 'mcall' and t.args[1] in ('ravel', 'flatten') and not t.args[2] or is_call(t, 'numpy.ravel') and len(t.args[1]) == 1:
            x = t.args[0] if t.op == 'mcall' else t.args[1][0]
            return x if x in (a, b) else None
        return None

    def atom(types, array, shapes, agree, sizes):
        def f(t):
            p = eqpair(t)
            if p:
                x, y, pos = p
                ty = [is_call(z, 'builtins.type') and z.args[1][0] in (a, b) for z in (x, y)]
                if all(ty):
                    return types == pos
                nd = [z.op == 'ext' and z.args[0] == 'numpy.ndarray' for z in (x, y)]
                if (ty[0] and nd[1]) or (ty[1] and nd[0]):
                    return array == pos
                if {x, y} == {shape(a), shape(b)}:
                    if not (types and array):
                        raise Touch('shape')
                    return shapes == pos
                for n in ('size', 'ndim'):
                    if {x, y} == {mk('attr', a, n), mk('attr', b, n)}:
                        if not (types and array):
                            raise Touch('shape')
                        return sizes == pos
                if {x, y} == {a, b}:
                    if array:
                        raise Touch('truth')
                    return agree == pos
            if is_call(t, 'builtins.isinstance') and t.args[1][0] in (a, b) and extname(t.args[1][1]) == 'numpy.ndarray':
                if types:
                    return array
                return array if t.args[1][0] is a else False
            e = None
            if t.op == 'mcall' and t.args[1] == 'all' and not t.args[2]:
                e = t.args[0]
            elif is_call(t, 'numpy.all') and len(t.args[1]) == 1:
                e = t.args[1][0]
            if e is not None and eqpair(e) and {e.args[1], e.args[2]} == {a, b} and eqpair(e)[2]:
                if not (types and array):
                    raise Touch('elements of something else')
                if not shapes:
                    raise Touch('broadcast')
                return agree
            if e is not None and eqpair(e) and eqpair(e)[2] and {flat(e.args[1]), flat(e.args[2])} == {a, b}:
                if not (types and array):
                    raise Touch('elements of something else')
                if not sizes:
                    raise Touch('broadcast')
                return agree or not shapes
            if t.op == 'mcall' and t.args[1] == 'any' and not t.args[2] and eqpair(t.args[0]) and {t.args[0].args[1], t.args[0].args[2]} == {a, b}:
                if not eqpair(t.args[0])[2]:
                    return not agree
                raise Touch('any')
            if is_call(t, 'numpy.array_equal') and set(t.args[1][:2]) == {a, b}:
                return agree and shapes if array else agree
            raise Unk('condition %s' % show(t, 5))
        return f
    for types, array, shapes, agree, sizes in itertools.product((True, False), repeat=5):
        if (not array and not shapes) or (agree and not shapes) or (shapes and not sizes):
            continue
        try:
            got = truth(res, atom(types, array, shapes, agree, sizes))
        except Unk as e:
            raise Undecided(e)
        except Touch as e:
            c.violate('arrays', who, loc, 'types %s, %s, shapes %s: %s decides' % (
                'equal' if types else 'different', 'arrays' if array else 'not arrays', 'equal' if shapes else 'different', {
                    'truth': 'the truth value of an elementwise comparison', 'broadcast': 'a comparison broadcast over different shapes',
                    'any': 'agreement in a single element'}.get(str(e), str(e))))
            return False
        want = types and shapes and agree
        if not types and agree and array is False:
            continue            # equal values of different types: either answer is a choice of this helper
        if got != want:
            c.violate('data', who, loc, 'types %s, %s, shapes %s, values %s: returns %s' % (
                'equal' if types else 'different', 'arrays' if array else 'not arrays', 'equal' if shapes else 'different',
                'equal' if agree else 'different', got))
            return False
        c.note('truth-table rows')
    return ''


# ------------------------------------------------------------------------------------------- S07
@prop('S07', 'abstract interpretation of the sanity check: each raising condition is reduced to a linear form over inner products and compared with the bilinear identity it must test; ordering and in-place effect analysis',
      'Every vector class and inner product; the thresholds are read from the code and must be relative to the size of the vector.')
def s07(c):
    c.rule('identity', 'each test compares ip(kv, kv) with k^2 ip(v, v)')
    c.rule('coverage', 'scaling, addition and their combination are tested, each on its own')
    c.rule('original', 'after the last vector operation ip(v, v) is compared with its value before the first one')
    c.rule('threshold', 'the absolute value of the difference is compared with a small threshold relative to the size of the vector')
    c.rule('undamaged', 'the test vector is not modified in place nor put')
    c.ob('VectorSpaceHandles.sanity_check', sanity, c)


def sanity(c):
    pkg = package('nompi')
    r = Run(pkg, None, {})
    cls = pkg.cls('vectorspace.VectorSpaceHandles')
    if cls is None or eqm(cls, 'sanity_check') is None:
        raise Undecided('no sanity_check')
    o = r.obj(cls.qual, 'self')
    r.an.impure.add(mk('attr', sym('self'), 'inner_product'))
    r.method(o, 'sanity_check', [sym('h')])
    who, loc = 'vectorspace.VectorSpaceHandles.sanity_check', loc_of(cls, 'sanity_check')
    ip = mk('attr', sym('self'), 'inner_product')
    gets = [e for e in r.events if e.kind == 'mcall' and e.d['recv'] is sym('h')]
    for e in gets:
        if e.d['name'] == 'put':
            c.violate('undamaged', who, e.loc, 'the sanity check puts a vector to the handle it tests')
            return False
    gots = [e for e in gets if e.d['name'] == 'get']
    if not gots:
        raise Undecided('the handle is not asked for a vector')
    V = r.deep(gots[0].d['result'])
    bad = changed_in_place(r, 0, {V})
    if bad:
        c.violate('undamaged', who, bad[0][0].loc, 'the test vector itself is modified in place (%s): the vector behind the handle is changed' % bad[0][0].kind)
        return False

    def vec(t):
        """(k, ops) of a multiple k of the test vector."""
        if t is V:
            return 1, frozenset()
        if is_call(t, 'copy.copy') and len(t.args[1]) == 1:
            return vec(t.args[1][0])    # may share the data
        if is_call(t, 'copy.deepcopy') and len(t.args[1]) == 1:
            k, ops = vec(t.args[1][0])
            return k, ops | {'copy'}
        if t.op == 'bin' and t.args[0] == '*':
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if b.op == 'const' and isinstance(b.args[0], (int, float, complex)):
                    k, ops = vec(a)
                    return k * b.args[0], ops | {'*'}
        if t.op == 'bin' and t.args[0] in '+-':
            (j, x), (k, y) = vec(t.args[1]), vec(t.args[2])
            return (j + k if t.args[0] == '+' else j - k), x | y | {t.args[0]}
        raise Unk('vector %s' % show(t, 4))

    def isip(t):
        return t.op == 'call' and t.args[0] is ip and len(t.args[1]) == 2

    def scal(t):
        """Linear form: inner product term or '1' -> coefficient."""
        if t.op == 'const' and isinstance(t.args[0], (int, float)):
            return {'1': t.args[0]}
        if isip(t):
            return {t: 1}
        if t.op == 'bin' and t.args[0] in '+-':
            a, b = scal(t.args[1]), scal(t.args[2])
            s = 1 if t.args[0] == '+' else -1
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0) + s * v
            return out
        if t.op == 'bin' and t.args[0] == '*':
            a, b = scal(t.args[1]), scal(t.args[2])
            for x, y in ((a, b), (b, a)):
                if set(x) == {'1'}:
                    return {k: v * x['1'] for k, v in y.items()}
        if t.op == 'un' and t.args[0] == '-':
            return {k: -v for k, v in scal(t.args[1]).items()}
        raise Unk('number %s' % show(t, 4))

    def isabs(t):
        return is_call(t, 'builtins.abs', 'numpy.abs', 'numpy.absolute') and len(t.args[1]) == 1

    raises = [e for e in r.events if e.kind == 'raise']
    tests = []
    try:
        noip = [e for e in raises if e.pc and mentions(e.pc[-1][0], ip) and not any(isip(x) for x in walk(r.deep(e.pc[-1][0])))]
        raises = [e for e in raises if e not in noip]
        conds = {e.pc[-1][0] for e in raises if e.pc} | {e.pc[-1][0] for e in noip}
        for e in raises:
            if not e.pc or any(k not in conds for k, p in e.pc):
                raise Unk('a condition of the exception at %s' % e.loc)
            if not (e.d['exc'].op in ('call', 'ext') and extname(e.d['exc'].args[0] if e.d['exc'].op == 'call' else e.d['exc']) == 'builtins.ValueError'):
                raise Unk('exception %s' % show(e.d['exc'], 2))
            t, pol = e.pc[-1]
            t = r.deep(t)
            while t.op == 'not':
                t, pol = t.args[0], not pol
            if t.op != 'cmp' or t.args[0] not in ('<', '<='):
                raise Unk('condition %s' % show(t, 5))
            lo, hi = (t.args[1], t.args[2]) if pol else (t.args[2], t.args[1])     # raises iff lo < hi
            small, D = lo, hi
            if isabs(lo) and not any(isip(x) and vec(x.args[1][0])[1] - {'copy'} for x in walk(hi)) and any(
                    isip(x) for x in walk(lo)) and (not isabs(hi) or len([x for x in walk(lo) if isip(x)]) > 1):
                c.violate('threshold', who, e.loc, 'the exception is raised when the difference is below the threshold')
                return False
            if not isabs(D):
                if any(isip(x) for x in walk(D)):
                    scal(D)
                    c.violate('threshold', who, e.loc, 'the signed difference %s is compared: deviations of the other sign pass' % show(D, 4))
                    return False
                raise Unk('condition %s' % show(t, 5))
            lin = scal(D.args[1][0])
            th = threshold(small, scal, isabs)
            if (t.args[0] == '<') != pol and th[0] == 'relative':
                c.violate('threshold', who, e.loc, 'the exception is also raised when the difference equals the threshold: a vector of zero magnitude is reported')
                return False
            tests.append((e, lin, th))
    except Unk as e:
        raise Undecided(e)
    # the reference value
    refs = {}
    for e, lin, th in tests:
        for k in lin:
            if k != '1':
                refs.setdefault(k, []).append(e)
    vecops = [e for e in r.events if e.kind == 'arith' and any(x is V for y in (r.deep(e.d['a']), r.deep(e.d['b'])) for x in walk(y))
              and not any(isip(x) for y in (r.deep(e.d['a']), r.deep(e.d['b'])) for x in walk(y))]
    if not vecops:
        c.violate('coverage', who, loc, 'no operation is applied to the test vector')
        return False
    first, last = vecops[0].seq, vecops[-1].seq
    found, final = set(), False
    for e, lin, th in tests:
        terms = [k for k in lin if k != '1' and lin[k] != 0]
        if lin.get('1'):
            raise Undecided('constant in %s' % e.loc)
        info = {}
        for k in terms:
            try:
                (j, a), (l, b) = vec(k.args[1][0]), vec(k.args[1][1])
            except Unk as x:
                raise Undecided(x)
            info[k] = (j * l, a | b)
        ref = [k for k in terms if info[k][0] == 1 and not (info[k][1] - {'copy'})]
        early = [k for k in ref if calls(r, k, -1, first)]
        opd = [k for k in terms if info[k][1] - {'copy'}]
        if th[0] == 'absolute':
            c.violate('threshold', who, e.loc, 'the difference is compared with the fixed number %g: rounding errors of large vectors are reported as faults and faults of small ones are not' % th[1])
            return False
        if th[1] > 1e-6:
            c.violate('threshold', who, e.loc, 'relative threshold %g hides faults' % th[1])
            return False
        if th[1] <= 0:
            c.violate('threshold', who, e.loc, 'threshold %g reports rounding errors as faults' % th[1])
            return False
        if len(terms) == 2 and len(opd) == 1 and len(ref) == 1:
            k2, ops = info[opd[0]]
            ratio = -lin[ref[0]] / lin[opd[0]]
            if ratio != k2:
                c.violate('identity', who, e.loc, 'ip(x, x) with x = %s is compared with %g ip(v, v), should be %g' % (show(opd[0].args[1][0], 4), ratio, k2))
                return False
            if 'copy' in info[opd[0]][1]:
                raise Undecided('operations on a copy')
            ops = ops - {'copy'}
            if ref[0] not in early and not any('copy' in info[ref[0]][1] for _ in (0,)):
                c.violate('original', who, e.loc, 'the reference ip(v, v) is computed after vector operations: a damaged vector is compared with itself')
                return False
            if k2 not in (0, 1) or '+' in ops or '-' in ops:
                found.add(tuple(sorted(ops)))
            c.note('tests')
        elif len(terms) == 2 and len(ref) == 2:
            # v against its copy
            late = [k for k in ref if k.args[1][0] is V and k.args[1][1] is V and calls(r, k, last, e.seq)]
            other = [k for k in ref if k not in late]
            if lin[terms[0]] + lin[terms[1]] != 0:
                c.violate('identity', who, e.loc, 'ip(v, v) is compared with a multiple of itself')
                return False
            if late and other:
                if calls(r, other[0], -1, first) or 'copy' in info[other[0]][1] and all(
                        x.seq < first for x in r.events if x.kind == 'call' and is_call(r.deep(x.d['result']), 'copy.deepcopy')):
                    final = True
            c.note('tests')
        elif len(terms) <= 1 and not ref or len(terms) == 0:
            c.violate('identity', who, e.loc, 'the difference compared is always zero')
            return False
        else:
            raise Undecided('test at %s' % e.loc)
    for want, what in ((('*',), 'scaling'), (('+',), 'addition')):
        if want not in found:
            c.violate('coverage', who, loc, '%s of the test vector on its own is not tested' % what)
            return False
    if not any('*' in f and ('+' in f or '-' in f) for f in found):
        c.violate('coverage', who, loc, 'scaling and addition combined are not tested')
        return False
    if not final:
        c.violate('original', who, loc, 'after the last vector operation the original vector is not compared with its value before')
        return False
    # the reference copy is made before the first operation
    for e in r.events:
        if e.kind == 'call' and is_call(r.deep(e.d['result']), 'copy.deepcopy', 'copy.copy') and e.seq > first:
            raise Undecided('a copy is made after vector operations')
    return '%d tests' % len(tests)


def calls(r, ipterm, lo, hi):
    return any(e.kind in ('call', 'mcall') and lo < e.seq < hi and (ipterm is None or r.deep(e.d['result']) is ipterm) for e in r.events)


def threshold(t, scal, isabs):
    """('absolute'|'relative', factor)"""
    if t.op == 'const' and isinstance(t.args[0], (int, float)):
        return ('absolute', t.args[0]) if t.args[0] != 0 else ('relative', 0)
    if t.op == 'bin' and t.args[0] == '*':
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if a.op == 'const':
                k = threshold(b, scal, isabs)
                return k[0], k[1] * a.args[0]
    if t.op == 'bin' and t.args[0] == '/' and t.args[2].op == 'const':
        k = threshold(t.args[1], scal, isabs)
        return k[0], k[1] / t.args[2].args[0]
    if isabs(t):
        l = scal(t.args[1][0])
        if len(l) == 1 and '1' not in l:
            return 'relative', abs(next(iter(l.values())))
    if t.op == 'bin' and t.args[0] == '+':
        a, b = threshold(t.args[1], scal, isabs), threshold(t.args[2], scal, isabs)
        if a[0] == b[0]:
            return a[0], a[1] + b[1]
        return max((a, b), key=lambda x: (x[0] == 'absolute' and x[1] > 1e-10, x[0] == 'relative'))
    l = scal(t)
    if len(l) == 1 and '1' not in l:
        return 'relative', next(iter(l.values()))
    raise Unk('threshold %s' % show(t, 4))


# ------------------------------------------------------------------------------------------- D06
OPENERS = ('open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen', 'tarfile.open', 'zipfile.ZipFile', 'shelve.open')
PATHARG = {'builtins.open': 0, 'io.open': 0, 'numpy.savetxt': 0, 'numpy.loadtxt': 0, 'numpy.genfromtxt': 0, 'numpy.save': 0, 'numpy.load': 0,
           'os.listdir': 0, 'util.load_array_text': 'file_name', 'util.save_array_text': 'file_name'}
SAMEPATH = ('builtins.str', 'os.fspath', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser')
RENAMES = ('os.rename', 'os.replace', 'shutil.move', 'shutil.copy', 'shutil.copyfile')


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for k in ast.iter_child_nodes(n):
            out[k] = n
    return out


@prop('D06', 'syntactic resource analysis of every open call (typestate open/closed over normal and exceptional exits), and abstract interpretation of the file functions\' path and mode arguments',
      'Every call site of a file-opening or file-naming function in the package. Trusts numpy\'s savetxt and loadtxt to close what they open.')
def d06(c):
    c.rule('closed', 'each opened file is closed on every exit: with statement, or try/finally entered at once')
    c.rule('mode', 'pickles are dumped to a file opened wb and loaded from one opened rb')
    c.rule('path', 'the path used is the one the user gave')
    pkg = package('nompi')
    for mname, m in sorted(pkg.modules.items()):
        par = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and dotted(n.func) in OPENERS:
                par = par or parents(m.tree)
                c.ob('%s:%d closed' % (m.path, n.lineno), closed, c, m, n, par)
                c.note('open calls')
    names = {k.rsplit('.', 1)[1] for k in PATHARG}
    for f in functions(pkg):
        if any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, 'id', None) in names or getattr(n, 'attr', None) in names) for n in ast.walk(f.node)):
            c.note('functions that name files')
            c.ob('%s paths and modes' % f.qual, paths, c, pkg, f)


def functions(pkg):
    out = []
    for m in sorted(pkg.modules.values(), key=lambda m: m.name):
        for v in m.env.values():
            if v.op == 'fn' and v.args[0].module is m and v.args[0] not in out:
                out.append(v.args[0])
            elif v.op == 'class' and v.args[0].module is m:
                for w in v.args[0].ns.values():
                    if w.op == 'fn' and w.args[0] not in out:
                        out.append(w.args[0])
    return out


def internal(pkg, f):
    """A private helper that other functions of the package call: it is analysed where it is inlined, with
    what its callers give it, not with arguments a user could choose."""
    n = f.name
    if not n.startswith('_') or n.startswith('__') and n.endswith('__') or f.kind not in ('function', 'static', 'staticmethod', 'class', 'classmethod', 'property'):
        return False
    if f.cls is not None:
        for m in pkg.modules.values():
            for v in m.env.values():
                if v.op == 'class' and v.args[0] is not f.cls and n in v.args[0].ns and (f.cls in v.args[0].mro() or v.args[0] in f.cls.mro()):
                    return False
    own = set(map(id, ast.walk(f.node)))
    for m in pkg.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and id(x) not in own and n == (getattr(x.func, 'id', None) or getattr(x.func, 'attr', None)):
                return True
    return False


def enclosing(n, par, kinds):
    while n in par:
        n = par[n]
        if isinstance(n, kinds):
            return n
    return None


def closed(c, m, n, par):
    loc = '%s:%d' % (m.path, n.lineno)
    fn = enclosing(n, par, (ast.FunctionDef, ast.Lambda, ast.Module))
    who = '%s.%s' % (m.name, getattr(fn, 'name', ''))
    p = par[n]
    while isinstance(p, ast.Call) and dotted(p.func) in ('contextlib.closing', 'closing') or isinstance(p, (ast.IfExp,)):
        p = par[p]
    if isinstance(p, ast.withitem):
        return 'with'
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('enter_context', 'callback', 'push'):
        return 'exit stack'
    if isinstance(p, ast.Return) or isinstance(p, ast.Yield):
        raise Undecided('the open file is handed on')
    if isinstance(p, (ast.Attribute, ast.Call, ast.For, ast.comprehension, ast.Expr)):
        if isinstance(p, ast.Call) and n in p.args and dotted(p.func) not in ('pickle.load', 'pickle.dump', 'np.savetxt', 'np.loadtxt', 'exec', 'list', 'iter'):
            raise Undecided('the open file is passed to %s' % dotted(p.func))
        c.violate('closed', who, loc, 'the file opened here is never closed')
        return False
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        name = p.targets[0].id
        return named(c, who, loc, name, p, par, fn)
    raise Undecided('use of the opened file')


def closes(node, name):
    return [x for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'close'
            and isinstance(x.func.value, ast.Name) and x.func.value.id == name]


def named(c, who, loc, name, stmt, par, fn):
    for x in ast.walk(fn):
        if isinstance(x, ast.withitem) and isinstance(x.context_expr, ast.Name) and x.context_expr.id == name:
            body = block_of(stmt, par)
            i = body.index(stmt)
            w = par[x]
            if i + 1 < len(body) and body[i + 1] is w:
                return 'with'
            raise Undecided('statements between open and with')
        if isinstance(x, ast.Return) and x.value is not None and any(isinstance(y, ast.Name) and y.id == name for y in [x.value] + (
                list(x.value.elts) if isinstance(x.value, ast.Tuple) else [])):
            raise Undecided('the open file is handed on')
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == name:
            raise Undecided('the open file is stored')
    cl = closes(fn, name)
    if not cl:
        c.violate('closed', who, loc, 'the file opened here is never closed')
        return False
    body = block_of(stmt, par)
    i = body.index(stmt)
    # try ... finally close, directly after (or around) the open
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(k in list(ast.walk(f)) for f in t.finalbody for k in cl):
            if not any(isinstance(f, ast.Expr) and f.value in cl for f in t.finalbody):
                raise Undecided('close in finally under a condition')
            if t in body and body.index(t) > i:
                between = body[i + 1:body.index(t)]
                if any(isinstance(y, (ast.Call, ast.Subscript, ast.BinOp)) for s in between for y in ast.walk(s)):
                    c.violate('closed', who, loc, 'statements between the open and the try block can fail and leave the file open')
                    return False
                return 'finally'
            if stmt in t.body:
                return 'finally'
    # straight-line close
    for k in cl:
        s = par.get(k)
        if isinstance(s, ast.Expr) and s in body and body.index(s) > i:
            between = body[i + 1:body.index(s)]
            if any(isinstance(y, (ast.Call, ast.Subscript, ast.BinOp)) for b in between for y in ast.walk(b)):
                c.violate('closed', who, loc, 'an error between the open and the close leaves the file open')
                return False
            return 'closed at once'
    raise Undecided('where the file is closed')


def block_of(stmt, par):
    p = par[stmt]
    for f in ('body', 'orelse', 'finalbody', 'handlers'):
        b = getattr(p, f, None)
        if isinstance(b, list) and stmt in b:
            return b
    raise Undecided('block')


def userpath(t):
    """'' if t is what the user gave; None if it is something else made from it; '?' unknown."""
    if t.op in ('sym',):
        return ''
    if t.op == 'attr':
        return userpath(t.args[0])
    if t.op == 'index':
        return userpath(t.args[0])
    if t.op == 'lv':
        return ''
    if t.op == 'phi':
        a, b = userpath(t.args[1]), userpath(t.args[2])
        return a if a == b else None
    if t.op == 'call' and extname(t.args[0]) in SAMEPATH:
        return userpath(t.args[1][0])
    if t.op == 'const' or t.op == 'bin' or (t.op == 'mcall' and t.args[1] in ('format', 'lower', 'upper', 'strip', 'replace', 'rstrip', 'lstrip', 'split', 'join')) \
            or (t.op == 'call' and extname(t.args[0]).startswith('os.path.')):
        return None
    return '?'


def paths(c, pkg, f):
    r = run_any(pkg, f, None, {k: v for k, v in IO.items() if k != f.qual})
    ren = any(e.kind == 'call' and extname(r.deep(e.d['func'])) in RENAMES for e in r.events)
    n = 0
    for e in r.events:
        if e.kind == 'call':
            q = extname(r.deep(e.d['func']))
            if q in ('pickle.dump', 'pickle.load'):
                modes(c, r, f, e, q)
            k = PATHARG.get(q)
            if not isinstance(k, int):
                continue
            args = [r.deep(x) for x in e.d['args']]
            kw = {a: r.deep(b) for a, b in e.d['kw']}
            t = args[0] if args else kw.get('file', kw.get('fname', kw.get('path')))
        elif e.kind == 'prim' and isinstance(PATHARG.get(e.d['qual']), str):
            q = e.d['qual']
            t = r.deep(e.d['args'].get(PATHARG[q], NONE))
        else:
            continue
        if t is None:
            raise Undecided('path of %s at %s' % (q, e.loc))
        u = userpath(t)
        if u == '?':
            if is_call(t, 'builtins.open'):
                continue
            raise Undecided('path %s at %s' % (show(t, 4), e.loc))
        if u is None:
            if ren:
                raise Undecided('files are renamed')
            c.violate('path', f.qual, e.loc, '%s uses the path %s instead of the one given' % (q, show(t, 5)))
            return False
        n += 1
        c.note('path arguments')
    return '%d paths' % n


def modes(c, r, f, e, q):
    args = [r.deep(x) for x in e.d['args']]
    i = 1 if q == 'pickle.dump' else 0
    if len(args) <= i or not is_call(args[i], 'builtins.open', 'io.open'):
        return
    o = args[i]
    kw = dict(o.args[2]) if len(o.args) > 2 else {}
    m = o.args[1][1] if len(o.args[1]) > 1 else kw.get('mode', const('r'))
    if m.op != 'const':
        raise Undecided('mode %s' % show(m, 3))
    m = str(m.args[0])
    ok = sorted(m) in ([sorted('wb'), sorted('wb+')] if i else [sorted('rb'), sorted('rb+')])
    if not ok:
        c.violate('mode', f.qual, e.loc, '%s with a file opened in mode %r' % (q, m))
