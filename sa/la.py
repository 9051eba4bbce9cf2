"""Algebraic normal form of linear-algebra value terms.

A matrix is a sum of coefficient * product of factors.  Factors:
  ('A', key, mod, inv)   atom; mod in N T C H; inv -> inverse
  ('D', em)              diagonal matrix of the vector em
  ('S', idx, t)          column selection matrix (t=True: transposed)
  ('B', i, n, t)         i-th block injection of n stacked blocks
A vector (1-D array) is ('em', coef, ((atom, power), ...)), an elementwise monomial, or ('mv', matrix) a
matrix with one column.  Identities used to normalise: products associate and distribute, transposition and
conjugation rules, E^H E = I and M E = E diag(ev) for Hermitian eigenvectors, SVD(M) expressed through the
eigendecomposition of M^H M, L^H R = I for bi-orthogonal eigenvectors, Cholesky factors, inverses."""
from fractions import Fraction
from .terms import *
from .terms import T
from .interp import mkindex, mkbin
from .poly import poly, Poly, NotPoly


class Unknown(Exception):
    pass


class Choice(Unknown):
    """A condition that holds for some sizes of the inputs and not for others."""

    def __init__(self, cond):
        Unknown.__init__(self, 'undecided choice on %s' % show(cond, 4))
        self.cond = cond


def F(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(x).limit_denominator(10 ** 9)
    return x


FLIP_T = {'N': 'T', 'T': 'N', 'C': 'H', 'H': 'C'}
FLIP_C = {'N': 'C', 'C': 'N', 'T': 'H', 'H': 'T'}


class Scal(object):
    """A scalar: opaque term or number."""
    def __init__(self, v):
        self.v = v      # Fraction/complex number or T

    def __repr__(self):
        return 'Scal(%s)' % (self.v,)


def flat(a):
    """The tags of nested elementwise operations."""
    return (a[0],) + (flat(a[1]) if a[0] in ('conj', 'sel', 'cj') else ()) if isinstance(a, tuple) and a else ()


class EM(object):
    """1-D array as an elementwise monomial."""
    def __init__(self, coef, atoms):
        self.coef = coef
        d = {}
        for a, p in atoms:
            d[a] = d.get(a, 0) + p
        self.atoms = tuple(sorted(((a, p) for a, p in d.items() if p != 0), key=repr))

    def key(self):
        return ('em', self.coef, self.atoms)

    def __repr__(self):
        return showem(self.key())


class MV(object):
    """1-D array given as a one-column matrix."""
    def __init__(self, m):
        self.m = m

    def __repr__(self):
        return 'vec[%s]' % (self.m,)


class Mat(object):
    def __init__(self, terms):
        # terms: dict factors-tuple -> coef
        self.terms = terms

    def key(self):
        return tuple(sorted(((fs, str(c)) for fs, c in self.terms.items() if c != 0), key=repr))

    def __repr__(self):
        return showmat(self)


class Seq(object):
    def __init__(self, items):
        self.items = items


def showem(k):
    _, c, atoms = k
    s = '*'.join(('%s' % showatom(a)) + ('' if p == 1 else '^%s' % p) for a, p in atoms) or '1'
    return s if c == 1 else '%s*%s' % (c, s)


def showatom(a):
    if isinstance(a, tuple):
        if a[0] == 'in':
            return str(a[1])
        if a[0] == 'sel':
            return '%s[%s]' % (showatom(a[1]), showidx(a[2]))
        if a[0] in ('evec', 'eval', 'bir', 'bil', 'biv', 'chol', 'pinv', 'inv', 'mv', 'abs', 'real', 'imag'):
            return '%s(%s)' % (a[0], ', '.join(showkey(x) if isinstance(x, tuple) else str(x) for x in a[1:]))
    return str(a)


def showidx(i):
    return i if isinstance(i, str) else str(i)


def showkey(k):
    """Key of a matrix polynomial."""
    try:
        if k and isinstance(k[0], tuple) and len(k[0]) == 2 and isinstance(k[0][0], tuple):
            return ' + '.join(('' if c in ('1',) else c + '*') + (showfs(fs)) for fs, c in k)
    except Exception:
        pass
    return showatom(k)


def showfs(fs):
    out = []
    for f in fs:
        if f[0] == 'A':
            s = showatom(f[1])
            if f[2] != 'N':
                s += "." + f[2]
            if f[3]:
                s = 'inv(%s)' % s
            out.append(s)
        elif f[0] == 'D':
            out.append('diag(%s)' % showem(f[1]))
        elif f[0] == 'S':
            out.append('Sel[%s]%s' % (showidx(f[1]), '.T' if f[2] else ''))
        elif f[0] == 'B':
            out.append('Blk%d/%d%s' % (f[1], f[2], '.T' if f[3] else ''))
    return ' '.join(out) or 'I'


def showmat(m):
    return showkey(m.key()) or '0'


# ------------------------------------------------------------------ algebra
class Algebra(object):
    def __init__(self, real=(), hermitian=(), unique=()):
        self.real = set(real)
        self.herm = set(hermitian)
        self.E = {}      # evec atom -> factor sequence of its matrix (single monomial) or None
        self.unique = set(unique)
        self.tails = set()
        self.full = set()           # slice bounds beyond the end
        self.samedim = {}

    # constructors
    def atom(self, key):
        return self.norm({(('A', key, 'N', False),): Fraction(1)})

    def inp(self, name):
        return self.atom(('in', name))

    def ident(self):
        return Mat({(): Fraction(1)})

    def diag(self, v):
        return self.norm({(('D', self.em(v).key()),): Fraction(1)})

    def sel(self, idx):
        if idx is None:
            return self.ident()
        return Mat({(('S', idx, False),): Fraction(1)})

    def blk(self, i, n):
        return Mat({(('B', i, n, False),): Fraction(1)})

    def isreal_atom(self, a):
        if a in self.real:
            return True
        if isinstance(a, tuple):
            if a[0] in ('eval', 'abs', 'real', 'imag'):
                return True
            if a[0] == 'sel':
                return self.isreal_atom(a[1])
            if a[0] == 'in':
                return a[1] in self.real
        return False

    def isherm_atom(self, a):
        return a in self.herm or (isinstance(a, tuple) and a[0] == 'in' and a[1] in self.herm)

    def em(self, v):
        if isinstance(v, EM):
            return v
        if isinstance(v, MV):
            # D(em) times selection of a column of ones etc. stays opaque
            fs = v.m.terms
            if len(fs) == 1:
                (k, c), = fs.items()
                if len(k) == 1 and k[0][0] == 'V':
                    return EM(c * k[0][1][1], k[0][1][2])
            return EM(Fraction(1), ((('mv', v.m.key()), 1),))
        raise Unknown('not a vector')

    def emconj(self, e):
        out = []
        for a, p in e.atoms:
            if self.isreal_atom(a):
                out.append((a, p))
            elif isinstance(a, tuple) and a[0] == 'conj':
                out.append((a[1], p))
            elif isinstance(a, tuple) and a[0] == 'mv':
                out.append((('mv', self.conj(self.unkey(a[1])).key()), p))
            else:
                out.append((('conj', a), p))
        return EM(e.coef, out)

    def unkey(self, key):
        return Mat({fs: _parse(c) for fs, c in key})

    # operations
    def add(self, a, b, sign=1):
        d = dict(a.terms)
        for k, c in b.terms.items():
            d[k] = d.get(k, 0) + sign * c
            if d[k] == 0:
                del d[k]
        return Mat(d)

    def scale(self, a, c):
        return Mat({k: v * c for k, v in a.terms.items()})

    def mul(self, a, b):
        d = {}
        for ka, ca in a.terms.items():
            for kb, cb in b.terms.items():
                k = ka + kb
                d[k] = d.get(k, 0) + ca * cb
        return self.norm(d)

    def prod(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = self.mul(r, m)
        return r

    def tr(self, a):
        d = {}
        for k, c in a.terms.items():
            n = []
            for f in reversed(k):
                if f[0] == 'A':
                    n.append(('A', f[1], FLIP_T[f[2]], f[3]))
                elif f[0] == 'S':
                    n.append(('S', f[1], not f[2]))
                elif f[0] == 'B':
                    n.append(('B', f[1], f[2], not f[3]))
                elif f[0] == 'V':
                    n.append(('V', f[1], not f[2]))
                else:
                    n.append(f)
            d[tuple(n)] = d.get(tuple(n), 0) + c
        return self.norm(d)

    def conj(self, a):
        d = {}
        for k, c in a.terms.items():
            n = []
            for f in k:
                if f[0] == 'A':
                    n.append(('A', f[1], FLIP_C[f[2]], f[3]))
                elif f[0] == 'D':
                    n.append(('D', self.emconj(EM(f[1][1], f[1][2])).key()))
                elif f[0] == 'V':
                    n.append(('V', self.emconj(EM(f[1][1], f[1][2])).key(), f[2]))
                else:
                    n.append(f)
            cc = c.conjugate() if isinstance(c, complex) else c
            d[tuple(n)] = d.get(tuple(n), 0) + cc
        return self.norm(d)

    def H(self, a):
        return self.tr(self.conj(a))

    def inv(self, a):
        if len(a.terms) == 1:
            (k, c), = a.terms.items()
            n = []
            ok = True
            for f in reversed(k):
                if f[0] == 'D':
                    e = EM(f[1][1], f[1][2])
                    n.append(('D', EM(1 / e.coef, [(x, -p) for x, p in e.atoms]).key()))
                elif f[0] == 'A' and self.square(f[1]):
                    n.append(('A', f[1], f[2], not f[3]))
                else:
                    ok = False
            if ok:
                return self.norm({tuple(n): 1 / c})
        return self.atom(('inv', a.key()))

    def square(self, key):
        return isinstance(key, tuple) and (key[0] in ('chol', 'inv', 'bir', 'bil') or (key[0] == 'in' and key[1] in self.herm))

    # factorisations
    def eigh(self, K):
        """(eigenvalue vector, eigenvector matrix) of a Hermitian matrix."""
        k = K.key()
        a = ('evec', k)
        if len(K.terms) == 1 and list(K.terms.values())[0] == 1:
            self.E[a] = list(K.terms)[0]
        else:
            self.E[a] = None
        return EM(Fraction(1), ((('eval', k), 1),)), self.atom(a)

    def svd(self, M):
        K = self.mul(self.H(M), M)
        ev, E = self.eigh(K)
        s = self.powv(ev, Fraction(1, 2))
        U = self.prod(M, E, self.diag(self.powv(ev, Fraction(-1, 2))))
        return U, s, E

    def biorthog(self, M, scale):
        k = M.key()
        return (EM(Fraction(1), ((('biv', k), 1),)), self.atom(('bir', k, scale)), self.atom(('bil', k, scale)))

    def chol(self, M):
        return self.atom(('chol', M.key()))

    # vectors
    def powv(self, v, p):
        e = self.em(v)
        c = e.coef
        if c != 1:
            if isinstance(p, Fraction) and p.denominator == 1:
                c = c ** int(p)
            else:
                raise Unknown('power of scaled vector')
        return EM(c, [(a, q * p) for a, q in e.atoms])

    def mulv(self, a, b):
        a, b = self.em(a), self.em(b)
        return EM(a.coef * b.coef, list(a.atoms) + list(b.atoms))

    def selv(self, v, idx):
        if idx is None:
            return v
        if isinstance(v, MV):
            return MV(self.mul(self.tr(self.sel(idx)), v.m))
        return EM(v.coef, [(('sel', a, idx), p) for a, p in v.atoms])

    def asmv(self, v):
        if isinstance(v, MV):
            return v.m
        vecs = [(a, p) for a, p in v.atoms if 'mv' in flat(a)]
        if vecs:
            # a product with one known vector is a diagonal matrix times that vector
            (a, p), rest = vecs[0], [x for x in v.atoms if x != vecs[0]]
            if len(vecs) > 1 or p != 1 or a[0] != 'mv':
                raise Unknown('elementwise product of vectors')
            m = self.unkey(a[1])
            if not rest:
                return Mat({fs: c * v.coef for fs, c in m.terms.items()})
            return self.mul(self.diag(EM(v.coef, rest)), m)
        return Mat({(('V', v.key(), False),): Fraction(1)})

    def partv(self, part, v):
        """The real or imaginary part of the elements; of known real ones, only the real part is known."""
        if isinstance(v, EM) and all(self.isreal_atom(a) for a, p in v.atoms) and all(p == int(p) for a, p in v.atoms):
            if part == 'real':
                return v
            raise Unknown('imaginary part of a real vector')
        if isinstance(v, EM) and sum(abs(p) for a, p in v.atoms) != 1:
            raise Unknown('%s part of a product' % part)
        return EM(Fraction(1), (((part, self.em(v).key() if isinstance(v, EM) else ('mv', v.m.key())), 1),))

    def absv(self, v):
        return EM(Fraction(1), ((('abs', self.em(v).key() if isinstance(v, EM) else ('mv', v.m.key())), 1),))

    # dims: (base, offset)
    def coldim(self, m):
        for k in sorted(m.terms, key=repr):
            d = self.fsdim(list(k))
            if d is not None:
                return d
        return None

    def fsdim(self, fs):
        """Number of columns of a product."""
        if not fs:
            return None
        f = fs[-1]
        if f[0] == 'D':
            return self.emdim(f[1])
        if f[0] == 'S':
            if f[2]:
                return None
            if f[1] in (':-1', '1:'):
                d = self.fsdim(fs[:-1])
                return None if d is None else (d[0], d[1] - 1)
            return (('nsel', f[1]), 0)
        if f[0] == 'B':
            if f[3] and f[2] == 't2' and f[1] == 0:
                d = self.fsdim(fs[:-1])
                return None if d is None else (d[0], d[1] + 1)
            return None
        if f[0] == 'A':
            key, mod = f[1], f[2]
            if key[0] == 'evec':
                if mod in 'NC':
                    return (('n', key[1]), 0)
                return self.coldim(self.unkey(key[1]))
            if key[0] in ('bir', 'bil'):
                return (('nb', key[1]), 0)
            if key[0] == 'in':
                d = ('cols' if mod in 'NC' else 'rows', key[1])
                return (self.samedim.get(d, d), 0)
            if key[0] == 'chol':
                return self.coldim(self.unkey(key[1]))
        return None

    def rowdim(self, m):
        for k in sorted(m.terms, key=repr):
            f = k[0] if k else None
            if f is None:
                continue
            n = []
            for g in reversed(k):
                if g[0] == 'A':
                    n.append(('A', g[1], FLIP_T[g[2]], g[3]))
                elif g[0] == 'S':
                    n.append(('S', g[1], not g[2]))
                elif g[0] == 'B':
                    n.append(('B', g[1], g[2], not g[3]))
                elif g[0] == 'V':
                    n.append(('V', g[1], not g[2]))
                else:
                    n.append(g)
            d = self.fsdim(n)
            if d is not None:
                return d
        return None

    def emdim(self, e):
        for a, p in e[2]:
            return self.atomdim(a)
        return None

    def atomdim(self, s):
        if s[0] == 'eval':
            return (('n', s[1]), 0)
        if s[0] == 'biv':
            return (('nb', s[1]), 0)
        if s[0] == 'sel':
            if s[2] in (':-1', '1:'):
                d = self.atomdim(s[1])
                return None if d is None else (d[0], d[1] - 1)
            return (('nsel', s[2]), 0)
        if s[0] == 'in':
            return (('len', s[1]), 0)
        if s[0] == 'conj':
            return self.atomdim(s[1])
        if s[0] == 'mv':
            return self.rowdim(self.unkey(s[1]))
        return None

    # normalisation
    def norm(self, d):
        out = {}
        work = list(d.items())
        while work:
            k, c = work.pop()
            if c == 0:
                continue
            r = self.simp(k)
            if r is None:
                continue
            fs, cc, changed = r
            x = self.expand(fs)
            if x is not None:
                work.extend((y, c * cc) for y in x)
                continue
            out[fs] = out.get(fs, 0) + c * cc
            if out[fs] == 0:
                del out[fs]
        return Mat(out)

    def expand(self, fs):
        """Columns 1: of a sequence = its columns :-1 without the first, then its last column."""
        for i in range(len(fs) - 1):
            a, b = fs[i], fs[i + 1]
            if a[0] == 'A' and a[1] in self.tails and b == ('S', '1:', False) and a[2] in 'NC':
                return [fs[:i + 1] + (('S', ':-1', False), ('S', '1:', False), ('B', 0, 't2', True)) + fs[i + 2:],
                        fs[:i + 1] + (('S', ('at', -1), False), ('B', 1, 't2', True)) + fs[i + 2:]]
            if b[0] == 'A' and b[1] in self.tails and a == ('S', '1:', True) and b[2] in 'TH':
                return [fs[:i] + (('B', 0, 't2', False), ('S', '1:', True), ('S', ':-1', True)) + fs[i + 1:],
                        fs[:i] + (('B', 1, 't2', False), ('S', ('at', -1), True)) + fs[i + 1:]]
        return None

    def simp(self, k):
        fs = list(k)
        coef = Fraction(1)
        changed = True
        while changed:
            changed = False
            n = []
            for f in fs:
                if f[0] == 'A':
                    key, mod, inv = f[1], f[2], f[3]
                    if self.isreal_atom(key):
                        mod = {'C': 'N', 'H': 'T'}.get(mod, mod)
                    if self.isherm_atom(key):
                        mod = {'H': 'N', 'C': 'T'}.get(mod, mod)
                    if self.isherm_atom(key) and self.isreal_atom(key):
                        mod = 'N'
                    f = ('A', key, mod, inv)
                elif f[0] == 'D':
                    _, c, atoms = f[1]
                    if c != 1:
                        coef = coef * c
                        f = ('D', ('em', Fraction(1), atoms))
                    if not atoms:
                        changed = True
                        continue
                n.append(f)
            fs = n
            i = 0
            while i < len(fs) - 1:
                a, b = fs[i], fs[i + 1]
                r = self.pair(a, b)
                if r is not None:
                    if r == 'zero':
                        return None
                    fs[i:i + 2] = list(r)
                    changed = True
                    i = max(0, i - 1)
                    continue
                i += 1
            # M E -> E diag(ev)
            for i, f in enumerate(fs):
                if f[0] == 'A' and f[1][0] == 'evec' and not f[3]:
                    seq = self.E.get(f[1])
                    if not seq:
                        continue
                    n = len(seq)
                    ev = ('D', EM(Fraction(1), ((('eval', f[1][1]), 1),)).key())
                    if f[2] == 'N' and tuple(fs[i - n:i]) == seq and i >= n:
                        fs[i - n:i + 1] = [f, ev]
                        changed = True
                        break
                    if f[2] == 'H' and tuple(fs[i + 1:i + 1 + n]) == seq:
                        fs[i:i + 1 + n] = [ev, f]
                        changed = True
                        break
                if f[0] == 'A' and f[1][0] in ('bir', 'bil') and not f[3]:
                    key = f[1][1]
                    if len(key) == 1 and key[0][1] == '1':
                        seq = key[0][0]
                        n = len(seq)
                        ev = ('D', EM(Fraction(1), ((('biv', key), 1),)).key())
                        if f[1][0] == 'bir' and f[2] == 'N' and n and i >= n and tuple(fs[i - n:i]) == seq:
                            fs[i - n:i + 1] = [f, ev]
                            changed = True
                            break
                        if f[1][0] == 'bil' and f[2] == 'H' and n and tuple(fs[i + 1:i + 1 + n]) == seq:
                            fs[i:i + 1 + n] = [ev, f]
                            changed = True
                            break
        return tuple(fs), coef, True

    def pair(self, a, b):
        if a[0] == 'D' and b[0] == 'D':
            e = EM(a[1][1] * b[1][1], list(a[1][2]) + list(b[1][2]))
            return (('D', e.key()),)
        if a[0] == 'D' and b[0] == 'V' and not b[2]:
            e = EM(a[1][1] * b[1][1], list(a[1][2]) + list(b[1][2]))
            return (('V', e.key(), False),)
        if a[0] == 'V' and a[2] and b[0] == 'D':
            e = EM(a[1][1] * b[1][1], list(a[1][2]) + list(b[1][2]))
            return (('V', e.key(), True),)
        if a[0] == 'D' and b[0] == 'S' and not b[2]:
            e = EM(a[1][1], [(('sel', x, b[1]), p) for x, p in a[1][2]])
            return (b, ('D', e.key()))
        if a[0] == 'S' and a[2] and b[0] == 'D':
            e = EM(b[1][1], [(('sel', x, a[1]), p) for x, p in b[1][2]])
            return (('D', e.key()), a)
        if a[0] == 'S' and b[0] == 'S' and a[2] and not b[2] and a[1] == b[1] and self.uniq(a[1]):
            return ()
        if a[0] == 'B' and b[0] == 'B' and a[3] and not b[3] and a[2] == b[2]:
            return () if a[1] == b[1] else 'zero'
        if a[0] == 'A' and b[0] == 'A':
            if a[1] == b[1] and a[2] == b[2] and a[3] != b[3]:
                return ()
            if a[1] == b[1] and a[1][0] == 'evec' and a[2] in 'H' and b[2] == 'N':
                return ()
            if a[1] == b[1] and a[1][0] == 'evec' and a[2] == 'T' and b[2] == 'C':
                return ()
            if a[1][0] in ('bil', 'bir') and b[1][0] in ('bil', 'bir') and a[1][0] != b[1][0] and a[1][1:] == b[1][1:] and a[2] == 'H' and b[2] == 'N' and not a[3] and not b[3]:
                return ()
            if a[1] == b[1] and a[1][0] == 'chol' and not a[3] and not b[3] and a[2] == 'N' and b[2] == 'H':
                m = self.unkey(a[1][1])
                if len(m.terms) == 1:
                    (k, c), = m.terms.items()
                    if c == 1:
                        return k
        return None

    def uniq(self, idx):
        return isinstance(idx, str) and (':' in idx) or idx in self.unique


def _parse(c):
    try:
        return Fraction(c)
    except ValueError:
        return complex(c)


# ------------------------------------------------------------------ conversion of value terms
class Conv(object):
    """Converts value terms to algebra values.

    inputs: dict T -> Mat/EM/MV/Scal/Seq (leaves)
    hooks: callable(conv, t) -> value or None, tried first
    """

    def __init__(self, alg, inputs, hook=None, decide=None):
        self.alg, self.inputs, self.hook, self.decide = alg, dict(inputs), hook, decide
        self.memo = {}

    def __call__(self, t):
        if t in self.inputs:
            return self.inputs[t]
        if t in self.memo:
            return self.memo[t]
        r = None
        if self.hook is not None:
            r = self.hook(self, t)
        if r is None:
            r = self.conv(t)
        self.memo[t] = r
        return r

    def mat(self, t):
        v = self(t)
        if isinstance(v, Mat):
            return v
        raise Unknown('not a matrix: %s' % show(t, 4))

    def vec(self, t):
        v = self(t)
        if isinstance(v, (EM, MV)):
            return v
        raise Unknown('not a vector: %s' % show(t, 4))

    def conv(self, t):
        op = t.op
        if op == 'const':
            v = t.args[0]
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return Scal(t)
            return Scal(F(v))
        if op == 'phi':
            d = self.cond(t.args[0])
            if d is not None:
                return self(t.args[1] if d else t.args[2])
            for i, j in ((1, 2), (2, 1)):
                if t.args[i] is UNDEF:
                    return self(t.args[j])
            a, b = self(t.args[1]), self(t.args[2])
            if keyof(a) == keyof(b):
                return a
            if self.open_choice(t.args[0]):
                raise Choice(t.args[0])
            raise Unknown('undecided choice on %s' % show(t.args[0], 4))
        if op == 'bin':
            return self.binop(t.args[0], self(t.args[1]), self(t.args[2]), t)
        if op == 'un' and t.args[0] == '-':
            return self.binop('*', Scal(F(-1)), self(t.args[1]), t)
        if op == 'attr':
            return self.attr(self(t.args[0]), t.args[1], t)
        if op == 'mcall':
            return self.mcall(t)
        if op == 'call' and t.args[0].op == 'ext':
            return self.extcall(t.args[0].args[0], t.args[1], dict(t.args[2]), t)
        if op == 'index':
            return self.index(self(t.args[0]), t.args[1], t)
        if op in ('tuple', 'list'):
            return Seq([self(x) for x in t.args[0]])
        if op == 'prim':
            return self.prim(t)
        raise Unknown('unknown construct %s' % show(t, 4))

    # conditions on shapes
    def cond(self, c):
        """Decide a condition from known shapes; None if unknown."""
        if self.decide is not None:
            d = self.decide(c)
            if d is not None:
                return d
        if c.op == 'const':
            return bool(c.args[0])
        if c.op == 'not':
            d = self.cond(c.args[0])
            return None if d is None else not d
        if c.op == 'bool':
            ds = [self.cond(x) for x in c.args[1]]
            if c.args[0] == 'and':
                return False if False in ds else (True if all(d is True for d in ds) else None)
            return True if True in ds else (False if all(d is False for d in ds) else None)
        if c.op == 'cmp' and c.args[0] in ('==', '<'):
            a, b = self.intval(c.args[1]), self.intval(c.args[2])
            if a is not None and b is not None:
                if a[0] == b[0]:
                    return a[1] == b[1] if c.args[0] == '==' else a[1] < b[1]
            x, y = self.linval(c.args[1]), self.linval(c.args[2])
            if x is not None and y is not None:
                d = {k: y.get(k, 0) - x.get(k, 0) for k in set(x) | set(y)}
                # at least two of everything that is counted
                k0 = d.pop(None, 0)
                cs = [v for v in d.values() if v]
                low = sum(2 * v for v in cs) + k0 if all(v > 0 for v in cs) else None
                high = sum(2 * v for v in cs) + k0 if all(v < 0 for v in cs) else None
                if c.args[0] == '<':
                    return True if low is not None and low > 0 else (False if high is not None and high <= 0 else None)
                if (low is not None and low > 0) or (high is not None and high < 0):
                    return False
        return None

    def open_choice(self, c):
        """A comparison of sizes of the inputs that are independent of each other."""
        if c.op == 'not':
            return self.open_choice(c.args[0])
        if c.op != 'cmp' or c.args[0] not in ('==', '<'):
            return False
        try:
            x, y = self.linval(c.args[1]), self.linval(c.args[2])
        except Unknown:
            return False
        if x is None or y is None:
            return False
        d = {k: y.get(k, 0) - x.get(k, 0) for k in set(x) | set(y)}
        d.pop(None, None)
        d = {k: v for k, v in d.items() if v}
        return sorted(d.values()) == [-1, 1] and {k[0] for k in d if isinstance(k, tuple)} == {'rows', 'cols'} and \
            len({k[1] for k in d}) == 1 and all(len(k) == 2 and isinstance(k[1], str) for k in d)

    def given(self, c, pol):
        """The conversion where the condition c has the value pol."""
        import copy
        o = copy.copy(self)
        o.memo = {}
        old = self.decide
        o.decide = lambda t: pol if t is c else (None if old is None else old(t))
        return o

    def linval(self, t):
        """An integer term as a combination of dimensions: {dimension: factor, None: constant}."""
        v = self.intval(t)
        if v is not None:
            return {None: v[1]} if v[0] is None else {v[0]: 1, None: v[1]}
        if t.op == 'bin' and t.args[0] in ('+', '-'):
            a, b = self.linval(t.args[1]), self.linval(t.args[2])
            if a is not None and b is not None:
                g = 1 if t.args[0] == '+' else -1
                return {k: a.get(k, 0) + g * b.get(k, 0) for k in set(a) | set(b)}
        if t.op == 'bin' and t.args[0] == '*':
            for p, q in (t.args[1:], t.args[:0:-1]):
                if is_num(p) and isinstance(p.args[0], int):
                    q = self.linval(q)
                    return None if q is None else {k: v * p.args[0] for k, v in q.items()}
        return None

    def intval(self, t):
        """(base, offset) of an integer term; base None for constants."""
        if is_num(t) and isinstance(t.args[0], int):
            return (None, t.args[0])
        if t.op == 'bin' and t.args[0] in '+-':
            a, b = self.intval(t.args[1]), self.intval(t.args[2])
            if a is None or b is None:
                return None
            if b[0] is None:
                return (a[0], a[1] + (b[1] if t.args[0] == '+' else -b[1]))
            if t.args[0] == '-' and a[0] == b[0]:
                return (None, a[1] - b[1])
            return None
        if t.op == 'attr' and t.args[1] == 'ndim':
            try:
                v = self(t.args[0])
            except Unknown:
                return None
            return (None, 2) if isinstance(v, (Mat, Col, Row)) else ((None, 1) if isinstance(v, (EM, MV)) else None)
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.len' and t.args[1][0].op == 'attr' and t.args[1][0].args[1] == 'shape':
            return self.intval(mk('attr', t.args[1][0].args[0], 'ndim'))
        try:
            return self.dimof(t)
        except Unknown:
            return None

    # pieces
    def attr(self, v, name, t):
        A = self.alg
        if name == 'T':
            if isinstance(v, Mat):
                return A.tr(v)
            if isinstance(v, Row):
                return Col(v.v)
            if isinstance(v, Col):
                return Row(v.v)
            return v
        if name == 'real' and isinstance(v, EM) and all(A.isreal_atom(a) for a, p in v.atoms):
            return v
        raise Unknown('attribute %s' % name)

    def binop(self, op, a, b, t):
        A = self.alg
        if op == '@':
            return self.dot(a, b)
        if op in ('+', '-'):
            sg = 1 if op == '+' else -1
            if isinstance(a, Mat) and isinstance(b, Mat):
                return A.add(a, b, sg)
            if isinstance(a, (EM, MV)) and isinstance(b, (EM, MV)):
                return MV(A.add(A.asmv(a), A.asmv(b), sg))
            if isinstance(a, Scal) and isinstance(b, Scal):
                return Scal(t)
            raise Unknown('sum of unlike shapes')
        if op == '*':
            if isinstance(a, Scal) and isinstance(b, Scal):
                if num(a) and num(b):
                    return Scal(a.v * b.v)
                return Scal(t)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Scal):
                    if not num(x):
                        raise Unknown('symbolic scalar factor')
                    if isinstance(y, Mat):
                        return A.scale(y, x.v)
                    if isinstance(y, EM):
                        return EM(y.coef * x.v, y.atoms)
                    if isinstance(y, MV):
                        return MV(A.scale(y.m, x.v))
            if isinstance(a, (EM, MV)) and isinstance(b, (EM, MV)):
                return A.mulv(a, b)
            if isinstance(a, Mat) and isinstance(b, (EM, MV)):
                return A.mul(a, A.diag(b))
            if isinstance(a, (EM, MV)) and isinstance(b, Mat):
                return A.mul(b, A.diag(a))
            if isinstance(a, Col) and isinstance(b, Mat):
                return A.mul(A.diag(a.v), b)
            if isinstance(b, Col) and isinstance(a, Mat):
                return A.mul(A.diag(b.v), a)
            raise Unknown('elementwise product of matrices')
        if op == '/':
            if isinstance(b, Scal):
                if not num(b):
                    raise Unknown('division by symbolic scalar')
                return self.binop('*', a, Scal(1 / F(b.v)), t)
            if isinstance(b, Col):
                return self.binop('*', a, Col(A.powv(b.v, Fraction(-1))), t)
            if isinstance(b, (EM, MV)):
                if isinstance(a, Scal) and num(a):
                    r = A.powv(b, Fraction(-1))
                    return EM(r.coef * a.v, r.atoms)
                return self.binop('*', a, A.powv(b, Fraction(-1)), t)
            raise Unknown('division')
        if op == '**':
            if isinstance(b, Scal) and num(b):
                if isinstance(a, (EM, MV)):
                    return A.powv(a, F(b.v))
                if isinstance(a, Col):
                    return Col(A.powv(a.v, F(b.v)))
                if isinstance(a, Scal) and num(a):
                    return Scal(F(float(a.v) ** float(b.v)))
                if isinstance(a, Mat) and isdiag(a):
                    raise Unknown('elementwise power of a diagonal matrix')
            raise Unknown('power')
        raise Unknown('operator %s' % op)

    def dot(self, a, b):
        A = self.alg
        if isinstance(a, Col):
            a = A.asmv(a.v)
        if isinstance(b, Col):
            b = A.asmv(b.v)
        if isinstance(a, Mat) and isinstance(b, Mat):
            return A.mul(a, b)
        if isinstance(a, Mat) and isinstance(b, (EM, MV)):
            return MV(A.mul(a, A.asmv(b)))
        if isinstance(a, (EM, MV)) and isinstance(b, Mat):
            return MV(A.mul(A.tr(b), A.asmv(a)))
        if isinstance(a, Scal) or isinstance(b, Scal):
            return self.binop('*', a, b, None)
        raise Unknown('dot of vectors')

    def conj(self, v):
        A = self.alg
        if isinstance(v, Mat):
            return A.conj(v)
        if isinstance(v, EM):
            return A.emconj(v)
        if isinstance(v, MV):
            return MV(A.conj(v.m))
        if isinstance(v, Col):
            return Col(self.conj(v.v))
        if isinstance(v, Scal) and num(v) and not isinstance(v.v, complex):
            return v
        raise Unknown('conj')

    def mcall(self, t):
        recv, name, args, kw = t.args
        A = self.alg
        if name in ('dot',) and len(args) == 1:
            return self.dot(self(recv), self(args[0]))
        if name in ('conj', 'conjugate'):
            return self.conj(self(recv))
        if name == 'transpose' and not args:
            v = self(recv)
            return A.tr(v) if isinstance(v, Mat) else v
        if name in ('copy', 'squeeze', 'flatten', 'ravel', 'tolist') and (not args or name == 'copy'):
            v = self(recv)
            if isinstance(v, Mat) and name in ('flatten', 'ravel'):
                m = v
                raise Unknown('flatten of a matrix')
            if isinstance(v, Col):
                return v.v
            return v
        if name == 'astype':
            return self(recv)
        if name == 'reshape':
            v = self(recv)
            sh = args[0] if len(args) == 1 and args[0].op in ('tuple', 'list') else mk('tuple', args)
            if isinstance(v, (EM, MV)) and sh.op == 'tuple' and len(sh.args[0]) == 2 and sh.args[0][1] is const(1):
                return Col(v)
            if isinstance(v, (EM, MV)) and sh.op == 'tuple' and len(sh.args[0]) == 1:
                return v
            if isinstance(v, Col) and sh.op == 'tuple' and len(sh.args[0]) == 1:
                return v.v
            raise Unknown('reshape')
        raise Unknown('method %s' % name)

    def extcall(self, n, args, kw, t):
        A = self.alg
        s = n[6:] if n.startswith('numpy.') else n
        if s in ('array', 'asarray', 'ascontiguousarray', 'copy', 'asanyarray', 'atleast_2d', 'squeeze', 'ravel', 'atleast_1d', 'require', 'asfortranarray'):
            v = self(args[0])
            if isinstance(v, Seq):
                raise Unknown('array of a sequence')
            if isinstance(v, (Col, Row)) and s in ('squeeze', 'ravel'):
                return v.v
            if s == 'atleast_2d' and isinstance(v, (EM, MV)):
                return Row(v)
            return v
        if s in ('dot', 'matmul') and len(args) == 2:
            return self.dot(self(args[0]), self(args[1]))
        if s in ('conj', 'conjugate'):
            return self.conj(self(args[0]))
        if s == 'transpose' and len(args) == 1:
            v = self(args[0])
            return A.tr(v) if isinstance(v, Mat) else v
        if s == 'diag' and len(args) == 1:
            v = self(args[0])
            if isinstance(v, (EM, MV)):
                return A.diag(v)
            raise Unknown('diag of a matrix')
        if s == 'sqrt':
            return self.binop('**', self(args[0]), Scal(Fraction(1, 2)), t)
        if s == 'power' or s == 'float_power':
            return self.binop('**', self(args[0]), self(args[1]), t)
        if s == 'multiply':
            return self.binop('*', self(args[0]), self(args[1]), t)
        if s == 'divide' or s == 'true_divide':
            return self.binop('/', self(args[0]), self(args[1]), t)
        if s == 'add':
            return self.binop('+', self(args[0]), self(args[1]), t)
        if s == 'subtract':
            return self.binop('-', self(args[0]), self(args[1]), t)
        if s == 'reciprocal':
            return self.binop('/', Scal(Fraction(1)), self(args[0]), t)
        if s == 'square':
            return self.binop('**', self(args[0]), Scal(Fraction(2)), t)
        if s == 'negative':
            return self.binop('*', Scal(F(-1)), self(args[0]), t)
        if s in ('linalg.inv', 'scipy.linalg.inv'):
            return A.inv(self.mat(args[0]))
        if s in ('linalg.solve', 'scipy.linalg.solve'):
            return self.dot(A.inv(self.mat(args[0])), self(args[1]))
        if s in ('linalg.cholesky',) and len(args) == 1:
            return A.chol(self.mat(args[0]))
        if s == 'linalg.multi_dot':
            q = self(args[0])
            r = q.items[0]
            for x in q.items[1:]:
                r = self.dot(r, x)
            return r
        if s in ('abs', 'absolute') or n == 'builtins.abs':
            v = self(args[0])
            if isinstance(v, (EM, MV)):
                return A.absv(v)
            if isinstance(v, Col):
                return A.absv(v.v)
            if isinstance(v, Mat):
                raise Unknown('abs of matrix')
        if s in ('real', 'imag') and len(args) == 1:
            v = self(args[0])
            if isinstance(v, Col):
                v = v.v
            if isinstance(v, (EM, MV)):
                return A.partv(s, v)
        if s in ('vstack', 'concatenate', 'row_stack') and (s != 'concatenate' or self._axis(args, kw, 0) == 0):
            q = self(args[0])
            if isinstance(q, Seq) and all(isinstance(x, Mat) for x in q.items):
                r = None
                for i, x in enumerate(q.items):
                    y = A.mul(A.blk(i, len(q.items)), x)
                    r = y if r is None else A.add(r, y)
                return r
        if s in ('hstack', 'concatenate', 'column_stack'):
            q = self(args[0])
            if isinstance(q, Seq) and len(q.items) == 2 and isinstance(q.items[0], Mat) and isinstance(q.items[1], Col) and (
                    s != 'concatenate' or self._axis(args, kw, 0) == 1):
                return A.add(A.mul(q.items[0], A.tr(A.blk(0, 't2'))), A.mul(A.asmv(q.items[1].v), A.tr(A.blk(1, 't2'))))
            if isinstance(q, Seq) and all(isinstance(x, Mat) for x in q.items) and (s != 'concatenate' or self._axis(args, kw, 0) == 1):
                r = None
                for i, x in enumerate(q.items):
                    y = A.mul(x, A.tr(A.blk(i, len(q.items))))
                    r = y if r is None else A.add(r, y)
                return r
        if s in ('real',):
            v = self(args[0])
            if isinstance(v, EM) and all(A.isreal_atom(a) for a, p in v.atoms):
                return v
        if s in ('linalg.svd', 'scipy.linalg.svd'):
            U, S, V = A.svd(self.mat(args[0]))
            return Seq([U, S, A.H(V)])
        if s in ('linalg.eigh', 'scipy.linalg.eigh'):
            raise Unknown('bare eigh (ascending order)')
        if s in ('eye', 'identity') and len(args) == 1:
            return A.ident()
        if n in ('builtins.tuple', 'builtins.list') and len(args) == 1:
            return self(args[0])
        raise Unknown('function %s' % n)

    def _axis(self, args, kw, default):
        a = kw.get('axis', args[1] if len(args) > 1 else const(default))
        return a.args[0] if a.op == 'const' else None

    def prim(self, t):
        A = self.alg
        q, d = t.args[0], dict(t.args[1])
        if q == 'util.svd':
            U, S, V = A.svd(self.mat(d['array']))
            return Seq([U, S, V])
        if q == 'util.eigh':
            ev, E = A.eigh(self.mat(d['array']))
            return Seq([ev, E])
        if q == 'util.eig_biorthog':
            sc = d.get('scale_choice')
            sc = sc.args[0].lower() if sc is not None and sc.op == 'const' and isinstance(sc.args[0], str) else None
            if sc is None:
                raise Unknown('scale choice not constant')
            ev, R, L = A.biorthog(self.mat(d['array']), sc)
            return Seq([ev, R, L])
        raise Unknown('primitive %s' % q)

    def bound(self, t, dim):
        """Canonical slice bound: from the start, or from the end with a leading minus."""
        if t is NONE:
            return ''
        if t.op == 'phi':
            d = self.cond(t.args[0])
            if d is not None:
                return self.bound(t.args[1] if d else t.args[2], dim)
        D = Poly.atom('dim')

        def atom(x):
            if dim is not None and x.op in ('attr', 'call', 'index'):
                try:
                    d = self.dimof(x)
                except Unknown:
                    return None
                if d is not None and d[0] == dim[0]:
                    return D + Poly.const(d[1] - dim[1])
            return None
        try:
            p = poly(t, atom)
        except NotPoly:
            return show(t, 30)
        c = p.coeff('dim')
        if c is not None and c[0] == Poly.const(1):
            q = c[1]
        elif c is not None and c[0] == Poly() and p.d and all(v < 0 for v in p.d.values()):
            q = p
        else:
            return repr(p)
        if q == Poly():
            return '-0'
        r = repr(q.scale(-1))
        return '-' + (r if len(q.d) == 1 else '(%s)' % r)

    def idx(self, i, dim=None):
        """Canonical index key; None = everything."""
        if i.op == 'slice':
            lo, hi, st = i.args
            if lo is NONE and hi is NONE and st is NONE:
                return None
            lo, hi = self.bound(lo, dim), self.bound(hi, dim)
            if hi in self.alg.full:
                hi = ''
            if lo.startswith('-') and lo[1:] in self.alg.full:
                lo = ''
            if lo == '0':
                lo = ''
            if hi == '-0':
                hi = ''
            st = '' if st is NONE or st is const(1) else ':' + show(st, 20)
            if not lo and not hi and not st:
                return None
            return '%s:%s%s' % (lo, hi, st)
        if i.op == 'phi':
            d = self.cond(i.args[0])
            if d is not None:
                return self.idx(i.args[1] if d else i.args[2], dim)
        if i.op == 'call' and i.args[0].op == 'ext' and i.args[0].args[0] in ('builtins.list', 'numpy.array', 'numpy.asarray', 'builtins.tuple') and i.args[1]:
            return self.idx(i.args[1][0], dim)
        if i.op == 'call' and i.args[0].op == 'ext' and i.args[0].args[0] == 'numpy.arange' and len(i.args[1]) == 1:
            i = mk('range', const(0), i.args[1][0], const(1))
        if i.op == 'range':
            lo, hi, st = i.args
            if lo is const(0) and st is const(1):
                d = self.dimof(hi)
                if d is not None and d == dim:
                    return None
                return ':%s' % self.bound(hi, dim)
        if i.op == 'sym':
            return ('idx', i.args[0])
        if i.op == 'const' and isinstance(i.args[0], int):
            return ('at', i.args[0])
        return ('expr', show(i, 30))

    def dimof(self, t):
        """Dimension denoted by an integer term."""
        if t.op == 'attr' and t.args[1] == 'size':
            v = self(t.args[0])
            if isinstance(v, EM):
                return self.alg.emdim(v.key())
        if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'builtins.len':
            v = self(t.args[1][0])
            if isinstance(v, EM):
                return self.alg.emdim(v.key())
            if isinstance(v, Mat):
                return self.alg.rowdim(v)
        if t.op == 'index' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
            v = self(t.args[0].args[0])
            k = t.args[1]
            if isinstance(v, Mat) and k.op == 'const':
                return self.alg.coldim(v) if k.args[0] in (1, -1) else self.alg.rowdim(v)
            if isinstance(v, EM):
                return self.alg.emdim(v.key())
        return None

    def index(self, v, i, t):
        A = self.alg
        if isinstance(v, Seq):
            if i.op == 'const' and isinstance(i.args[0], int):
                return v.items[i.args[0]]
            if i.op == 'slice' and all(x.op == 'const' for x in i.args):
                return Seq(v.items[slice(*[x.args[0] for x in i.args])])
            raise Unknown('index of sequence')
        if isinstance(v, (EM, MV)):
            if i.op == 'tuple' and len(i.args[0]) == 2:
                a, b = i.args[0]
                if is_full(a) and isnew(b):
                    return Col(v)
                if isnew(a) and is_full(b):
                    return v
                raise Unknown('2-D index of a vector')
            k = self.idx(i, A.emdim(v.key()) if isinstance(v, EM) else None)
            if isinstance(k, tuple) and k[0] == 'at':
                return Scal(t)
            return A.selv(v, k)
        if isinstance(v, Mat):
            if i.op == 'tuple':
                if len(i.args[0]) != 2:
                    raise Unknown('index')
                a, b = i.args[0]
                if a.op == 'ellipsis':
                    a = mk('slice', NONE, NONE, NONE)
                kb = self.idx(b, A.coldim(v))
                ka = self.idx(a, A.rowdim(v))
            else:
                ka, kb = self.idx(i, A.rowdim(v)), None
            at = lambda k: isinstance(k, tuple) and k[0] == 'at'
            if at(ka) and at(kb):
                return Scal(t)
            if at(kb):
                return MV(A.prod(A.tr(A.sel(ka)), v, A.sel(kb)))
            if at(ka):
                return MV(A.prod(A.tr(A.sel(kb)), A.tr(v), A.sel(ka)))
            return A.prod(A.tr(A.sel(ka)), v, A.sel(kb))
        raise Unknown('index of %s' % type(v).__name__)


class Row(object):
    """A vector turned into a row (1,n)."""
    def __init__(self, v):
        self.v = v


class Col(object):
    """A vector turned into a column (n,1) for broadcasting."""
    def __init__(self, v):
        self.v = v


def is_full(i):
    return i.op == 'slice' and all(x is NONE for x in i.args)


def isnew(i):
    return i is NONE or (i.op == 'ext' and i.args[0] == 'numpy.newaxis')


def num(s):
    return isinstance(s, Scal) and not isinstance(s.v, T)


def isdiag(m):
    return all(len(k) == 1 and k[0][0] == 'D' for k in m.terms)


def keyof(v):
    if isinstance(v, Mat):
        return ('M', v.key())
    if isinstance(v, EM):
        return ('E', v.key())
    if isinstance(v, MV):
        return ('V', v.m.key())
    if isinstance(v, Col):
        return ('Col', keyof(v.v))
    if isinstance(v, Scal):
        return ('S', v.v)
    if isinstance(v, Seq):
        return ('Seq', tuple(keyof(x) for x in v.items))
    return ('?', id(v))


def same(alg, a, b):
    """Equality of two algebra values (vectors compared as such)."""
    if isinstance(a, Col):
        a = a.v
    if isinstance(b, Col):
        b = b.v
    if isinstance(a, (EM, MV)) and isinstance(b, (EM, MV)):
        return alg.em(a).key() == alg.em(b).key() or alg.asmv(a).key() == alg.asmv(b).key()
    return keyof(a) == keyof(b)
