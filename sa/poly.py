"""Integer-valued terms as polynomials over atoms (exact, all values of the atoms)."""
from fractions import Fraction
from .terms import *


_keys = {}


def akey(a):
    """Order of atoms in a monomial."""
    k = _keys.get(a)
    if k is None:
        k = _keys[a] = repr(a)
    return k


class Poly(object):
    """dict monomial (sorted tuple of atoms) -> coefficient."""
    __slots__ = ('d', 'h')

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}
        self.h = None

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)})

    @staticmethod
    def atom(a):
        return Poly({(a,): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.d.items()})

    def __mul__(self, o):
        d = {}
        for a, x in self.d.items():
            for b, y in o.d.items():
                k = tuple(sorted(a + b, key=akey)) if a and b else a or b
                d[k] = d.get(k, 0) + x * y
        return Poly(d)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def isconst(self):
        return all(k == () for k in self.d)

    def value(self):
        return self.d.get((), Fraction(0))

    def atoms(self):
        return {a for k in self.d for a in k}

    def subst(self, m):
        r = Poly()
        for k, v in self.d.items():
            p = Poly.const(v)
            for a in k:
                p = p * (m[a] if a in m else Poly.atom(a))
            r = r + p
        return r

    def coeff(self, a):
        """(p, q) with self = p*a + q, q free of a; None if not linear in a."""
        p, q = {}, {}
        for k, v in self.d.items():
            n = k.count(a)
            if n == 0:
                q[k] = v
            elif n == 1:
                l = list(k)
                l.remove(a)
                p[tuple(l)] = v
            else:
                return None
        return Poly(p), Poly(q)

    def key(self):
        return tuple(sorted(((tuple(repr(a) for a in k), v) for k, v in self.d.items())))

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for k, v in sorted(self.d.items(), key=lambda x: repr(x)):
            m = '*'.join(show(a, 6) if isinstance(a, T) else str(a) for a in k)
            if not m:
                out.append(str(v))
            elif v == 1:
                out.append(m)
            elif v == -1:
                out.append('-' + m)
            else:
                out.append('%s*%s' % (v, m))
        return ' + '.join(out).replace('+ -', '- ')


class NotPoly(Exception):
    pass


def poly(t, atom=None):
    """Polynomial of an integer-valued term.  atom(t) -> Poly or None maps leaves (tried first on every node)."""
    if atom is not None:
        r = atom(t)
        if r is not None:
            return r
    if t.op == 'const':
        v = t.args[0]
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise NotPoly(show(t, 3))
        if isinstance(v, float) and v != int(v):
            return Poly.const(Fraction(v))
        return Poly.const(int(v))
    if t.op == 'bin':
        op, a, b = t.args[0], t.args[1], t.args[2]
        if op in ('+', '-', '*'):
            x, y = poly(a, atom), poly(b, atom)
            return x + y if op == '+' else (x - y if op == '-' else x * y)
        if op == '//':
            x, y = poly(a, atom), poly(b, atom)
            return floordiv(x, y)
        if op == '**':
            y = poly(b, atom)
            if y.isconst() and y.value() >= 0 and y.value() < 5 and y.value().denominator == 1:
                x, r = poly(a, atom), Poly.const(1)
                for _ in range(int(y.value())):
                    r = r * x
                return r
    if t.op == 'un' and t.args[0] == '-':
        return poly(t.args[1], atom).scale(-1)
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('builtins.int', 'operator.index') and len(t.args[1]) == 1:
        return poly(t.args[1][0], atom)
    if t.op in ('sym', 'lv', 'glob', 'index', 'attr', 'call', 'mcall', 'phi', 'mu', 'loopout', 'prim', 'bin'):
        return Poly.atom(t)
    raise NotPoly(show(t, 3))


def floordiv(x, y):
    if y.isconst() and y.value() == 1:
        return x
    if y.isconst() and x.isconst() and y.value() != 0:
        return Poly.const(x.value() // y.value())
    if len(y.d) == 1 and y.value() == 0 or y.isconst():
        # exact multiples of y come out
        (k, c), = y.d.items()
        out, rest = {}, {}
        for m, v in x.d.items():
            l = list(m)
            ok = True
            for a in k:
                if a in l:
                    l.remove(a)
                else:
                    ok = False
                    break
            if ok and (v / c).denominator == 1:
                out[tuple(l)] = v / c
            else:
                rest[m] = v
        if not rest:
            return Poly(out)
        if all(v.denominator == 1 for v in rest.values()):
            return Poly(out) + Poly.atom(('//', Poly(rest).key(), y.key()))
    return Poly.atom(('//', x.key(), y.key()))
