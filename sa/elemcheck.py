"""Comparison of an array term with an element-wise specification."""
from .common import *
from .arr import *


def equal(facts, a, b):
    """Equality of two scalars, index questions decided by the facts (may Split)."""
    d = a - b
    if not d.d:
        return True
    sa = [x for x in (a - b).atoms() if isinstance(x, tuple) and x[0] == 'el']
    # identify elements whose indices are equal in this case
    m = {}
    for i, x in enumerate(sa):
        for y in sa[:i]:
            if x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
                st = [facts.eq(p, q) for p, q in zip(x[3], y[3])]
                if all(s is True for s in st):
                    m[x] = Poly.atom(y)
                elif any(s is False for s in st):
                    continue
                else:
                    for s, p, q in zip(st, x[3], y[3]):
                        if s is None:
                            if facts.ge(p - q):
                                raise Split(p - q - ONE)
                            if facts.ge(q - p):
                                raise Split(q - p - ONE)
                            raise Split(q - p)
    if m:
        d = subst_poly(d, m)
        if not d.d:
            return True
    if facts.eq(a, b) is True:
        return True
    return False


KNOWN_APPS = {'abs', 'round', 'floor', 'conj', 'pow', 'real', 'imag'}


def foreign(p, names, apps=()):
    """An atom outside the vocabulary of the specification."""
    for x in atoms_deep(p):
        if isinstance(x, T):
            if x.op in ('sym', 'attr', 'index') and x in names:
                continue
            return x
        if isinstance(x, tuple):
            if x[0] == 'el' and x[1] not in names:
                return x
            if x[0] == 'app' and x[1] not in KNOWN_APPS and x not in names:
                return x
            if x[0] in ('obj', 'uninit') and x not in names:
                return x
    return None


def compare_arr(c, name, construct, loc, make_ev, term, spec_shape, index, spec, names, what, facts=(), rule='definition', cases=((),)):
    """One obligation.  make_ev(facts) -> Ev; index: list of index polynomials (with their ranges in facts);
    spec(ev, index) -> Poly."""
    def go():
        n, unk = 0, None
        for extra in cases:
            try:
                for f, res in cells(list(facts) + list(extra), one):
                    n += 1
                    kind, msg = res[:2]
                    if kind == 'bad':
                        m = f.model(top=7)
                        if m is None:
                            unk = 'no example sizes for: %s' % msg
                            continue
                        if len(res) > 2 and all(agree(k, *res[2:]) for k in models(f, m)):
                            unk = 'written differently: %s' % msg
                            continue
                        c.violate(rule, construct, loc, '%s: %s (case %s)' % (name, msg, [q for q in f.f if q not in facts][:4]))
                        return False
            except Unk as e:
                unk = e
        if unk is not None:
            raise Undecided('%s: %s' % (name, unk))
        return '%d index cases' % n

    def one(f):
        try:
            return two(f)
        except Fails as e:
            return 'bad', str(e)

    def two(f):
        ev = make_ev(f)
        v = ev.asarr(ev(term)) if isinstance(term, T) else ev.asarr(term(ev))
        if spec_shape is not None:
            if len(v.shape) != len(spec_shape):
                return 'bad', '%s has %d dimensions instead of %d' % (what, len(v.shape), len(spec_shape))
            for k, (a, b) in enumerate(zip(v.shape, spec_shape)):
                if f.eq(a, b) is not True:
                    a0, b0 = a, b
                    a, b = reduced(f, a, b)
                    if foreign(a, names) is not None:
                        raise Unk('extent %r' % (a,))
                    if f.eq(a, b) is None:
                        if f.ge(a - b):
                            raise Split(a - b - ONE)
                        if f.ge(b - a):
                            raise Split(b - a - ONE)
                        raise Split(b - a)
                    return 'bad', 'extent %d of %s is %r instead of %r' % (k, what, a0, b0)
        x = v.get(list(index))
        s = spec(ev, list(index))
        if equal(f, x, s):
            return 'ok', ''
        fo = foreign(x, names)
        if fo is not None:
            raise Unk('value uses %s' % (show(fo, 3) if isinstance(fo, T) else fo,))
        return 'bad', 'element %r of %s is %r instead of %r' % (tuple(index), what, x, s), x, s
    c.ob(name, go)


def reduced(f, a, b):
    """Extents without the positive factors they share."""
    d = a - b
    ok = True
    while ok and d.d:
        ok = False
        for x in set.intersection(*[set(k) for k in d.d]):
            if f.ge(Poly.atom(x) - ONE):
                out = {}
                for k, v in d.d.items():
                    k = list(k)
                    k.remove(x)
                    out[tuple(k)] = v
                d = Poly(out)
                ok = True
                break
    return (d, ZERO) if d.d != (a - b).d else (a, b)


def models(f, m):
    yield m
    for low in (1, 2, 3):
        for top in (low + 1, low + 3):
            k = f.model([Poly.atom(a) - K(low) for a in m], top=top)
            if k is not None:
                yield k


def agree(m, x, s):
    """The two polynomials are the same at the sizes and indices m."""
    return not (expanded(x, m) - expanded(s, m)).d


def ivar(name):
    return Poly.atom(name)


def rng(p, n):
    """0 <= p < n."""
    return [p, n - p - ONE]
