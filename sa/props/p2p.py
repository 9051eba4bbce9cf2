"""P02: point-to-point messages; partners, tags, completion and labels, decided over all ranks and process counts."""
from ..par import *
from ..report import prop
from ..poly import Poly, poly, NotPoly
from ..lin import Facts

PR, PN, DEST = Poly.atom(RANK), Poly.atom(NPROCS), Poly.atom('DEST')
ONE = Poly.const(1)


def divides(n, p):
    """p is a multiple of n (polynomials)."""
    if not p.d:
        return True
    if len(n.d) != 1:
        return False
    (k, c), = n.d.items()
    for m, v in p.d.items():
        l = list(m)
        for a in k:
            if a not in l:
                return False
            l.remove(a)
        if (v / c).denominator != 1:
            return False
    return True


class Cong(object):
    """Terms as polynomials in the rank, with remainders modulo the number n of participants."""

    def __init__(self, r, n):
        self.r, self.n = r, n
        self.base = Facts([PR, n - PR - ONE, n - ONE])

    def mod(self, p):
        """Canonical remainder of p."""
        q = Poly()
        for k, v in p.d.items():
            t = Poly.const(v)
            for a in k:
                if isinstance(a, tuple) and a[0] == 'mod' and len(k) == 1:
                    t = t * a[1]
                else:
                    t = t * Poly.atom(a)
            q = q + t
        # drop multiples of n
        if len(self.n.d) == 1:
            (nk, nc), = self.n.d.items()
            q = Poly({k: v for k, v in q.d.items() if not divides(self.n, Poly({k: v}))})
        if self.base.ge(q) and self.base.ge(self.n - q - ONE):
            return q
        return Poly.atom(('mod', q))

    def __call__(self, t):
        def at(x):
            if x.op == 'bin' and x.args[0] == '%':
                m = self(x.args[2])
                if m == self.n:
                    return self.mod(self(x.args[1]))
                raise Undecided('remainder by %s' % show(x.args[2], 4))
            if x.op == 'phi':
                return self.choice(x)
            if x.op == 'mcall' or (x.op == 'call' and x.args[0].op != 'ext'):
                raise Undecided('partner expression %s' % show(x, 3))
            return None
        try:
            return poly(t, at)
        except NotPoly as e:
            raise Undecided('partner expression %s' % e)

    def choice(self, t):
        c, a, b = t.args
        if c.op != 'cmp' or c.args[0] not in ('<', '=='):
            raise Undecided('partner chosen by %s' % show(c, 3))
        x, y = self(c.args[1]), self(c.args[2])
        pa, pb = self(a), self(b)
        d = y - x
        if c.args[0] == '<':
            fa, fb, eqs = [d - ONE], [d.scale(-1)], None
        else:
            fa, fb = [d, d.scale(-1)], []
            eqs = d
        for p, fs in ((pa, fa), (pb, fb)):
            F = self.base.copy()
            for q in fs:
                F.add(q)
            if c.args[0] == '==' and p is pb:
                # rank differs from an end of the range
                if self.base.ge(d):
                    F.add(d - ONE)
                elif self.base.ge(d.scale(-1)):
                    F.add(d.scale(-1) - ONE)
            if not (F.ge(p) and F.ge(self.n - p - ONE)):
                raise Undecided('range of the partner %s' % show(t, 4))
            if c.args[0] == '<' and p is pb and F.ge(d) and F.ge(d.scale(-1)):
                eqs = d
            if c.args[0] == '<' and p is pa and F.ge(d - ONE) and F.ge(ONE - d):
                eqs = d - ONE
        diff = pa - pb
        if divides(self.n, diff):
            return self.mod(pb)
        if eqs is not None:
            # substitute the equality in the difference
            lc = eqs.coeff(RANK)
            if lc is not None and lc[0].isconst() and lc[0].value() in (1, -1):
                val = lc[1].scale(-lc[0].value())
                # the value away from the edge, extended to the edge
                p, q = (pa, pb) if c.args[0] == '<' and eqs == d else (pb, pa)
                if divides(self.n, p.subst({RANK: val}) - q.subst({RANK: val})):
                    return self.mod(p)
        raise Undecided('partner chosen by %s' % show(c, 3))


def shift(cg, p):
    """a with p = (RANK + a) mod n."""
    if len(p.d) == 1 and list(p.d.values()) == [1]:
        (k,), = p.d.keys() if len(list(p.d.keys())[0]) == 1 else ((None,),)
        if isinstance(k, tuple) and k[0] == 'mod':
            p = k[1]
    a = p - PR
    if RANK in a.atoms() or any(isinstance(x, tuple) and x[0] == 'mod' for x in a.atoms()):
        raise Undecided('partner %r' % p)
    return a


def has_rank(t, r):
    return any(x is RANK for x in walk(t))


def participants(r, pc):
    """The number of processes that reach a point (polynomial), its description."""
    ns = []
    for c, p in pc:
        if c.op == 'const':
            continue
        if not has_rank(c, r):
            continue
        F = share_of(c, p)
        if F is None:
            F = partial_share(c, p)
            if F is not None:
                raise Partial(F)
            raise Undecided('only some processes communicate: %s' % show(c, 4))
        ns.append(F)
    if len(set(ns)) > 1:
        raise Undecided('several conditions on the share of work')
    return ns[0] if ns else None


class Partial(Exception):
    pass


def partial_share(c, p):
    """c says that the share F[RANK] has more than one task: F."""
    if c.op == 'cmp' and c.args[0] == '<':
        o, a, b = c.args
        if p is True and a.op == 'const' and a.args[0] >= 1:
            return lenrank(b)
        if p is False and b.op == 'const' and b.args[0] >= 2:
            return lenrank(a)
    return None


def share_of(c, p):
    """c (with outcome p) says that the share F[RANK] is not empty: F."""
    if c.op == 'cmp' and c.args[0] == '<' and p is True and c.args[1] is const(0):
        return lenrank(c.args[2])
    if c.op == 'cmp' and c.args[0] == '==' and p is False and c.args[2] is const(0):
        return lenrank(c.args[1])
    if c.op == 'cmp' and c.args[0] == '==' and p is False:
        for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if b is mk('list', ()) and a.op == 'index' and a.args[1] is RANK:
                return a.args[0]
            if b is const(0):
                return lenrank(a)
    if c.op == 'cmp' and c.args[0] == '<' and p is False and c.args[2] is const(1):
        return lenrank(c.args[1])
    if c.op == 'cmp' and c.args[0] == '<' and p is True and c.args[1] is RANK:
        return active_count(c.args[2])
    if c.op == 'index' and c.args[1] is RANK and p is True:
        return c.args[0]
    return None


def lenrank(t):
    if t.op == 'call' and t.args[0] is ext('builtins.len') and t.args[1][0].op == 'index' and t.args[1][0].args[1] is RANK:
        return t.args[1][0].args[0]
    return None


def active_count(t):
    """t counts the non-empty shares of F: F."""
    if t.op == 'call' and t.args[0] is ext('builtins.len') and len(t.args[1]) == 1 and t.args[1][0].op == 'comp':
        lid, cnt, elt, conds = t.args[1][0].args
        if len(conds) == 1:
            return nonempty(conds[0])
    if t.op == 'call' and t.args[0] is ext('builtins.sum') and len(t.args[1]) == 1 and t.args[1][0].op == 'comp':
        lid, cnt, elt, conds = t.args[1][0].args
        if elt is const(1) and len(conds) == 1:
            return nonempty(conds[0])
        if not conds:
            return nonempty(elt)
    return None


def nonempty(c):
    p = True
    while c.op == 'not':
        c, p = c.args[0], not p
    if c.op == 'cmp':
        o, x, y = c.args
        if o == '==' and not p:
            for a, b in ((x, y), (y, x)):
                if b is mk('list', ()):
                    return item_of(a)
                if b is const(0):
                    return item_of(unlen(a))
        if o == '<' and p and x is const(0):
            return item_of(unlen(y))
        if o == '<' and not p and y is const(1):
            return item_of(unlen(x))
    elif p:
        return item_of(c) or item_of(unlen(c))
    return None


def unlen(t):
    if t is not None and t.op == 'call' and t.args[0] is ext('builtins.len'):
        return t.args[1][0]
    return None


def item_of(t):
    if t is not None and t.op == 'index' and t.args[1].op == 'lv':
        return t.args[0]
    return None


def mod_base(t):
    """Moduli used in a partner expression."""
    return {x.args[2] for x in walk(t) if x.op == 'bin' and x.args[0] == '%'}


@prop('P02', 'congruence algebra over the rank on the partner and tag expressions of every send/receive pair; control equivalence and completion order of the pair; label bookkeeping of payloads',
      'Every point-to-point operation reachable from the package; all ranks and process counts symbolically.')
def p02(c):
    c.rule('pair', 'every send has a receive under the same conditions and in the same loops, and the other way round')
    c.rule('partner', 'with n participants, process p sends to (p+a) mod n and receives from (p-a) mod n')
    c.rule('tag', 'the tag computed by the receiver is the tag computed by the sender it receives from')
    c.rule('complete', 'a non-blocking send is waited for after the receive; no process blocks in a send or receive before it has offered its message')
    c.rule('labels', 'vectors and their indices are packed and unpacked in the same positions')
    pkg = package('mpiN')
    n = 0
    for name, f, cl in entries(pkg):
        r = cached_run(pkg, f, cls=cl)
        if r is None:
            c.undecided(name, 'not analysed')
            continue
        evs = [e for e in r.events if comm_op(e) is not None and comm_op(e)[0].lower() in P2P]
        if not evs:
            continue
        n += 1
        c.note('functions with messages')
        groups = {}
        for e in evs:
            groups.setdefault((e.loops, pckey(e.pc)), []).append(e)
        for k, es in sorted(groups.items(), key=lambda x: x[1][0].seq):
            c.ob('%s %s' % (name, es[0].loc), exchange, c, name, r, es)
    if not n:
        c.undecided('messages', 'no point-to-point operation found')


def pckey(pc):
    return tuple((q, p) for q, p in pc if q.op != 'const')


def exchange(c, name, r, es):
    ops = [(e,) + comm_op(e) for e in es]
    sends = [x for x in ops if 'send' in x[1].lower() and 'sendrecv' not in x[1].lower()]
    recvs = [x for x in ops if 'recv' in x[1].lower() and 'sendrecv' not in x[1].lower()]
    both = [x for x in ops if 'sendrecv' in x[1].lower()]
    f = func_of(es[0])
    ok = True
    if not both and (not sends or not recvs):
        e, o, a, k = (sends + recvs)[0]
        c.violate('pair', f, e.loc, '%s: %s without a matching %s under the same conditions' % (name, o, 'receive' if sends else 'send'))
        return False
    if len(sends) != len(recvs):
        raise Undecided('%d sends and %d receives' % (len(sends), len(recvs)))
    if len(sends) + len(both) > 1:
        raise Undecided('several messages at one point')
    try:
        F = participants(r, es[0].pc)
    except Partial:
        c.violate('pair', f, es[0].loc, '%s: a process with a single task does not take part in the exchange its partners expect' % name)
        return False

    def arg(x, i, *names):
        for nm in names:
            if nm in x[3]:
                return r.deep(x[3][nm])
        return r.deep(x[2][i]) if i is not None and len(x[2]) > i else None
    if both:
        x = both[0]
        payload = arg(x, 0, 'sendobj', 'obj')
        dest, stag = arg(x, 1, 'dest'), arg(x, 2, 'sendtag')
        source, rtag = arg(x, 4, 'source'), arg(x, 5, 'recvtag')
        recvterm = callterm(x[0])
    else:
        s, q = sends[0], recvs[0]
        payload = arg(s, 0, 'obj', 'buf')
        dest, stag = arg(s, 1, 'dest'), arg(s, 2, 'tag')
        source, rtag = arg(q, 1, 'source'), arg(q, 2, 'tag')
        recvterm = callterm(q[0])
    if dest is None or source is None:
        raise Undecided('partner not given')
    for nm, t in (('destination', dest), ('source', source)):
        for m in mod_base(t):
            G = active_count(m)
            if G is not None and F is None:
                c.violate('partner', f, es[0].loc, '%s: %s counts modulo the number of processes with work, but every process takes part' % (name, nm))
                return False
            if m is NPROCS and F is not None:
                c.violate('partner', f, es[0].loc, '%s: %s counts modulo the number of all processes, but only those with work take part' % (name, nm))
                return False
            if G is not None and G is not F:
                raise Undecided('participants of one division, partners of another')
            if G is None and m is not NPROCS:
                raise Undecided('modulus %s' % show(m, 4))
    if F is None:
        npart = PN
    else:
        ms = [m for m in mod_base(dest) | mod_base(source) if active_count(m) is F]
        npart = Poly.atom(ms[0]) if ms else Poly.atom('ACTIVE')
    cg = Cong(r, npart)
    pd, ps = cg(dest), cg(source)
    a, b = shift(cg, pd), shift(cg, ps)
    if not divides(npart, a + b):
        c.violate('partner', f, es[0].loc, '%s: a process sends to (rank%+s) and receives from (rank%+s)' % (name, Pm(a), Pm(b)))
        return False
    # tags
    if stag is not None and rtag is not None:
        ts, tr = cg(stag), cg(rtag)
        ts = retag(ts, {a: DEST}, npart, None)
        tr = retag(tr, {b: PR}, npart, DEST)
        if ts != tr:
            if not understood(ts) or not understood(tr):
                raise Undecided('tags %r and %r' % (ts, tr))
            c.violate('tag', f, es[-1].loc, '%s: the message is sent with tag %r and expected with tag %r' % (name, Pm(ts), Pm(tr)))
            return False
    elif (stag is None) != (rtag is None):
        if rtag is not None and rtag is not const(0) or stag is not None and False:
            c.violate('tag', f, es[-1].loc, '%s: the message is sent without the tag the receiver expects' % name)
            return False
    # completion
    if not both:
        ok = completion(c, name, r, f, sends[0], recvs[0]) and ok
    labels(c, name, r, f, es, payload, recvterm)
    return '' if ok else False


class Pm(object):
    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return repr(self.p).replace('RANK', 'rank')[:80]
    __str__ = __repr__

    def __format__(self, s):
        return '+' + repr(self) if s.startswith('+') else repr(self)


def understood(p):
    return all(x in (RANK, NPROCS, 'DEST') or (isinstance(x, T) and x.op in ('lv', 'sym', 'attr', 'call')) for x in p.atoms())


def retag(p, known, n, rank):
    """Rewrite the tag over the sender RANK and the receiver DEST."""
    m = {}
    for a in p.atoms():
        if isinstance(a, tuple) and a[0] == 'mod':
            sh = a[1] - PR
            for k, v in known.items():
                if divides(n, sh - k):
                    m[a] = v
    if rank is not None:
        m[RANK] = rank
    return p.subst(m)


def callterm(e):
    if e.kind == 'call':
        return mk('call', e.d['func'], e.d['args'], e.d['kw'])
    return mk('mcall', e.d['recv'], e.d['name'], e.d['args'], e.d['kw'])


def completion(c, name, r, f, s, q):
    es, so = s[0], s[1]
    er, ro = q[0], q[1]
    req = callterm(es)
    reqr = r.deep(req)
    waits = [e for e in r.events if e.kind == 'mcall' and e.d['name'] in ('Wait', 'wait') and r.deep(e.d['recv']) in (req, reqr)]
    nb = so.lower() in ('isend', 'issend', 'ibsend')
    if ro.lower() == 'irecv':
        raise Undecided('non-blocking receive')
    if er.seq < es.seq:
        c.violate('complete', f, er.loc, '%s: every process waits to receive before it sends' % name)
        return False
    if not nb:
        if so.lower() in ('bsend',):
            return True
        c.violate('complete', f, es.loc, '%s: every process blocks in %s before anyone receives' % (name, so))
        return False
    same = [e for e in waits if e.loops == es.loops and pckey(e.pc) == pckey(es.pc)]
    if not waits:
        if any(req in list(e.d.get('args', ())) or reqr in [r.deep(x) for x in e.d.get('args', ()) if isinstance(x, T)] for e in r.events if e.kind in ('call', 'mcall') and e.seq > es.seq):
            raise Undecided('the request is handed to another function')
        for e in r.events:
            if e.kind in ('call', 'mcall') and e.seq > es.seq and any(isinstance(x, T) and any(y is req or y is reqr for y in walk(r.deep(x))) for x in e.d.get('args', ())):
                raise Undecided('the request is handed to another function')
        c.violate('complete', f, es.loc, '%s: the send is never completed' % name)
        return False
    if not same:
        raise Undecided('the wait is under other conditions')
    if min(e.seq for e in same) < er.seq:
        c.violate('complete', f, es.loc, '%s: every process waits for its send before it receives' % name)
        return False
    return True


def labels(c, name, r, f, es, payload, recvterm):
    if payload.op not in ('tuple', 'list') or len(payload.args[0]) < 2:
        raise Undecided('message of the form %s' % show(payload, 3))
    comps = list(payload.args[0])
    rt = {recvterm, r.deep(recvterm)}

    def positions(t):
        """Positions of the received message t is built from."""
        out = set()
        for x in walk(t):
            if x.op == 'index' and x.args[0] in rt:
                out.add(x.args[1].args[0] if x.args[1].op == 'const' else None)
        return out
    for k, x in enumerate(comps):
        if x.op == 'mu':
            L = r.an.loops.get(x.args[0])
            if L is None:
                raise Undecided('loop of the message')
            b = r.deep(L.back.get(x.args[1], x))
            ps = positions(b)
            if None in ps or len(ps) > 1:
                raise Undecided('parts of the message mixed')
            if not ps:
                c.violate('labels', f, es[0].loc, '%s: what is passed on is not what was received' % name)
                return False
            if ps != {k} and ps != {k - len(comps)}:
                c.violate('labels', f, es[0].loc, '%s: part %d of the message is taken up as part %d' % (name, sorted(ps)[0], k))
                return False
    sl = [x for x in comps if x.op == 'index' and x.args[1].op == 'slice']
    if len(sl) == len(comps) and len({x.args[1] for x in sl}) > 1:
        raise Undecided('parts of the message are cut differently')
    # how the parts are used
    for e in r.events:
        if e.kind == 'store' and 'idx' in e.d:
            for p in positions(r.deep(e.d['idx'])):
                if p is not None and isvec(comps, p):
                    c.violate('labels', f, e.loc, '%s: the vectors of the message are used as indices' % name)
                    return False
    return True


def isvec(comps, p):
    try:
        x = comps[p]
    except IndexError:
        return False
    return any(y.op == 'mcall' and y.args[1] == 'get' for y in walk(x))
