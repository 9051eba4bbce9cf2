"""Entailment of integer polynomial inequalities (Fourier-Motzkin elimination over the monomials)."""
from fractions import Fraction
from math import gcd
from .poly import Poly


def _ints(p):
    """{monomial: int} of a polynomial scaled to integers; constant under ()."""
    den = 1
    for v in p.d.values():
        if v.denominator != 1:
            den = den * v.denominator // gcd(den, v.denominator)
    return {k: int(v * den) for k, v in p.d.items()}


def infeasible(polys, limit=600):
    """True when the conjunction p >= 0 of all polys has no integer solution (sound, incomplete)."""
    rows = {}

    def put(rows, r):
        """Keep the tightest row per linear part (coprime, constant rounded down); False when contradictory."""
        c = r.pop((), 0)
        if not r:
            return c >= 0
        g = 0
        for v in r.values():
            g = gcd(g, v)
            if g == 1:
                break
        if g > 1:
            c = c // g
            k = frozenset([(m, v // g) for m, v in r.items()])
        else:
            k = frozenset(r.items())
        if k not in rows or c < rows[k]:
            rows[k] = c
        return True
    for p in polys:
        if not put(rows, _ints(p)):
            return True
    while True:
        cnt = {}
        for k in rows:
            for v, x in k:
                a, b = cnt.get(v, (0, 0))
                cnt[v] = (a + 1, b) if x > 0 else (a, b + 1)
        if not cnt:
            return False
        v = min(cnt, key=lambda q: (cnt[q][0] * cnt[q][1] - cnt[q][0] - cnt[q][1]))
        if cnt[v][0] * cnt[v][1] > limit:
            return False
        pos, neg, new = [], [], {}
        for k, c in rows.items():
            d = dict(k)
            x = d.pop(v, None)
            if x is None:
                new[k] = c
            else:
                (pos if x > 0 else neg).append((abs(x), d, c))
        for x, da, ca in pos:
            for y, db, cb in neg:
                n = {}
                for k, c in da.items():
                    n[k] = c * y
                for k, c in db.items():
                    n[k] = n.get(k, 0) + c * x
                n = {k: c for k, c in n.items() if c != 0}
                cc = ca * y + cb * x
                if cc:
                    n[()] = cc
                if not n:
                    continue
                if not put(new, n):
                    return True
        if len(new) > limit:
            return False
        rows = new


def degree(p):
    return max([len(k) for k in p.d] or [0])


_ids, _memo = {}, {}    # conjunctions (built step by step) and what they entail


class Facts(object):
    """A conjunction of polynomial facts p >= 0 over integers."""

    def __init__(self, facts=()):
        self.reset(facts)

    def reset(self, facts):
        self.f = []
        self.has = set()
        self.id = 0
        for p in facts:
            self.add(p)

    def copy(self):
        n = Facts()
        n.f, n.has, n.id = list(self.f), set(self.has), self.id
        return n

    def add(self, p):
        if isinstance(p, Poly) and p not in self.has:
            self.f.append(p)
            self.has.add(p)
            k = (self.id, p)
            if k not in _ids:
                _ids[k] = len(_ids) + 1
            self.id = _ids[k]

    def add_eq(self, p):
        self.add(p)
        self.add(p.scale(-1))

    def relevant(self, extra):
        """Facts connected with the query, with products when nonlinear monomials occur."""
        ps = list(self.f) + [extra]
        mons = {k for p in ps for k in p.d if len(k) >= 2}
        if mons:
            want = {a for k in mons for a in k}
            lin = [p for p in self.f if degree(p) == 1] + ([extra] if degree(extra) == 1 else [])
            prods = []
            done = set()
            for _ in range(2):
                n0 = len(prods)
                grow = set()
                base = [p for p in lin if p.atoms() & want]
                for i, a in enumerate(base):
                    for b in base[i:]:
                        if (a, b) in done:
                            continue
                        q = a * b
                        ms = {k for k in q.d if len(k) >= 2}
                        if ms & mons:
                            done.add((a, b))
                            prods.append(q)
                            grow |= ms
                if len(prods) == n0 or len(prods) > 60:
                    break
                mons |= grow
            ps += prods[:150]
        return ps

    def _closed(self, ps, extra):
        """Only the polys transitively sharing monomials with the query."""
        need = {k for k in extra.d if k != ()}
        out, rest = [], list(ps)
        ch = True
        while ch:
            ch = False
            keep = []
            for p in rest:
                ks = {k for k in p.d if k != ()}
                if not ks or ks & need:
                    out.append(p)
                    need |= ks
                    ch = True
                else:
                    keep.append(p)
            rest = keep
        return out

    def ge(self, p):
        """p >= 0 entailed?"""
        if p.isconst():
            return p.value() >= 0
        key = (self.id, p)
        r = _memo.get(key)
        if r is None:
            neg = p.scale(-1) - Poly.const(1)
            # integer-valued polynomials only: coefficients are integers
            if any(v.denominator != 1 for v in p.d.values()):
                neg = p.scale(-1)
                r = False
                r = infeasible(self._closed(self.relevant(neg), neg) + []) if False else False
            else:
                r = infeasible(self._closed(list(self.f) + [neg], neg)) or infeasible(self._closed(self.relevant(neg), neg))
            _memo[key] = r
        return r

    def decide(self, p):
        """True: p >= 0 always; False: p < 0 always; None."""
        if self.ge(p):
            return True
        if self.ge(p.scale(-1) - Poly.const(1)):
            return False
        return None

    def eq(self, a, b):
        d = a - b
        if not d.d:
            return True
        if d.isconst():
            return False
        if self.ge(d) and self.ge(d.scale(-1)):
            return True
        if self.ge(d - Poly.const(1)) or self.ge(d.scale(-1) - Poly.const(1)):
            return False
        return None

    def feasible(self):
        return not infeasible(self.f) if self.f else True

    def model(self, extra=(), top=5, limit=60000):
        """A small non-negative integer valuation of the atoms satisfying all facts (dict), or None when none is found."""
        polys = list(self.f) + list(extra)
        atoms = []
        for p in polys:
            for a in p.atoms():
                if a not in atoms:
                    atoms.append(a)
        if not atoms:
            return {} if all(p.value() >= 0 for p in polys) else None
        rows = [[(list(k), float(v)) for k, v in p.d.items()] for p in polys]
        by = {a: [i for i, p in enumerate(polys) if a in p.atoms()] for a in atoms}
        order = sorted(atoms, key=lambda a: -len(by[a]))
        left = [limit]

        def bound(row, lo, hi):
            t = 0.0
            for k, v in row:
                x = v
                for a in k:
                    x *= hi[a] if v > 0 else lo[a]
                t += x
            return t

        def narrow(lo, hi, start):
            """Bounds propagation; False when contradictory."""
            q = list(start)
            while q:
                i = q.pop()
                if bound(rows[i], lo, hi) < 0:
                    return False
                for a in polys[i].atoms():
                    ch = False
                    while lo[a] < hi[a]:
                        s = lo[a]
                        h = hi[a]
                        hi[a] = s
                        bad = bound(rows[i], lo, hi) < 0
                        hi[a] = h
                        if not bad:
                            break
                        lo[a] = s + 1
                        ch = True
                    while lo[a] < hi[a]:
                        s = lo[a]
                        h = hi[a]
                        lo[a] = h
                        bad = bound(rows[i], lo, hi) < 0
                        lo[a] = s
                        if not bad:
                            break
                        hi[a] = h - 1
                        ch = True
                    if ch:
                        q += [j for j in by[a] if j not in q]
            return True

        def go(lo, hi):
            left[0] -= 1
            if left[0] < 0:
                return None
            free = [a for a in order if lo[a] < hi[a]]
            if not free:
                return dict(lo)
            a = min(free, key=lambda x: hi[x] - lo[x])
            for v in range(lo[a], hi[a] + 1):
                l2, h2 = dict(lo), dict(hi)
                l2[a] = h2[a] = v
                if narrow(l2, h2, by[a]):
                    m = go(l2, h2)
                    if m is not None:
                        return m
                if left[0] < 0:
                    return None
            return None
        lo = {a: 0 for a in atoms}
        hi = {a: top for a in atoms}
        if not narrow(lo, hi, range(len(polys))):
            return None
        return go(lo, hi)
