"""P01, P03, P04, P13, S04: rules over the parallel effects of every entry point."""
from ..par import *
from ..report import prop


@prop('P01', 'interprocedural taint analysis by rank and time of the path conditions and loop bounds under which collectives are reached',
      'Every public function and method, all paths; user callables and the user\'s vectors are assumed to behave alike on all processes.')
def p01(c):
    pkg = package('mpiN')
    c.rule('uniform', 'no collective under a condition, in a loop or after an exit that depends on the rank, the time or a received message, unless both branches make the same collectives')
    n = 0
    for name, f, cl in entries(pkg):
        r = cached_run(pkg, f, cls=cl)
        if r is None:
            c.undecided(name, 'not analysed: %r' % _err(pkg, f, cl))
            continue
        ev = colls(pkg, r)
        if not ev:
            continue
        n += 1
        c.note('functions with collectives')
        c.note('collective call sites', len(ev))
        c.ob(name, uniform, c, pkg, name, r, ev)
    if n < 20:
        c.undecided('entry points', 'only %d entry points with collectives' % n)


def _err(pkg, f, cl):
    from .. import par
    return par._cache.get((id(pkg), f, cl, None, 'err'))


def colls(pkg, r):
    out = []
    for e in r.events:
        o = comm_op(e)
        if o is not None and o[0].lower() in COLL:
            out.append((e, o[0].lower(), o))
        elif o is None:
            n = opaque_coll(pkg, e)
            if n:
                out.append((e, n, None))
    return out


def uniform(c, pkg, name, r, ev):
    T_ = Taint(r)
    bad = {}
    for e, n, o in ev:
        for cond, p in e.pc:
            if T_(cond):
                bad.setdefault(cond, []).append((e, n, p))
    ok = True
    for cond, lst in bad.items():
        sig = {True: [], False: []}
        for e, n, p in lst:
            sig[p].append((n, tuple(x for x in e.pc if x[0] is not cond), e.loops))
        if sig[True] == sig[False]:
            continue
        e, n, p = lst[0]
        # the branch in which the others do not take part ends the program anyway
        c.violate('uniform', func_of(e), e.loc, '%s: %s is reached only when %s is %s, which differs between processes' % (name, n, show(cond, 4), p))
        ok = False
    for e, n, o in ev:
        for lid in e.loops:
            L = r.an.loops.get(lid)
            if L is None:
                continue
            if T_.control(L) or any(T_(q) for x in L.continues for q in conds_of(x) if False):
                c.violate('uniform', func_of(e), e.loc, '%s: %s is repeated in a loop (%s) whose length differs between processes' % (name, n, L.loc))
                ok = False
        if o is not None:
            for a in list(o[1][1:]) + [v for k, v in o[2].items() if k == 'root']:
                if T_(a) and n in ('bcast', 'reduce', 'gather', 'scatter'):
                    c.violate('uniform', func_of(e), e.loc, '%s: the root of %s differs between processes' % (name, n))
                    ok = False
    last = max(e.seq for e, n, o in ev)
    for e in r.events:
        if e.kind == 'raise' and e.seq < last and not any(q[0].startswith('parallel.') for q in e.stack):
            tc = [(q, p) for q, p in e.pc if T_(q)]
            if tc and not any(consecutive(r, q, p) for q, p in tc):
                c.violate('uniform', func_of(e), e.loc, '%s: only some processes raise here (%s), the others wait in a collective' % (name, show(tc[0][0], 4)))
                ok = False
    return '%d collective call sites' % len(ev) if ok else False


# ------------------------------------------------------------------ P03
def is_writer(f):
    return (f.op == 'attr' and f.args[1] in ('put_array', '_put_array')) or (f.op == 'sym' and f.args[0] == 'put_array')


@prop('P03', 'effect and ordering analysis of the calls of the user\'s writer in the distributed world',
      'Every public method that reaches the writer, all paths.')
def p03(c):
    pkg = package('mpiN')
    c.rule('rank-zero', 'the writer is called under the condition that the rank is zero, and under no other condition that differs between processes')
    c.rule('once', 'one call per array and destination')
    c.rule('barrier', 'all processes pass a barrier after the last write before returning')
    n = 0
    for name, f, cl in entries(pkg):
        if cl is None or name.endswith('__init__'):
            continue
        r = cached_run(pkg, f, cls=cl)
        if r is None:
            c.undecided(name, 'not analysed')
            continue
        w = [e for e in r.events if e.kind == 'call' and is_writer(e.d['func'])]
        if not w:
            continue
        n += 1
        c.note('methods that save arrays')
        c.ob(name, saved, c, pkg, name, r, w)
    if n < 20:
        c.undecided('entry points', 'only %d methods that call the writer' % n)
    # vectors are stored for all processes too
    for name, f, cl in entries(pkg):
        if name in ('VectorSpaceHandles.lin_combine', 'compute_derivs_handles'):
            r = cached_run(pkg, f, cls=cl)
            if r is not None:
                c.ob('%s: vectors stored' % name, stored, c, pkg, name, r)


RZ = None


def rank_zero(pc):
    """The path condition implies rank zero / not rank zero."""
    for q, p in pc:
        for x, pol in atoms_of(q, p):
            if x.op == 'cmp' and x.args[0] == '==' and RANK in x.args[1:] and const(0) in x.args[1:]:
                return pol
            if x.op == 'cmp' and x.args[0] == '<':
                if x.args[1] is RANK and x.args[2] is const(1):
                    return pol
                if x.args[1] is const(0) and x.args[2] is RANK:
                    return not pol
            if x is RANK:
                return not pol
    return None


def atoms_of(q, p):
    if q.op == 'not':
        return atoms_of(q.args[0], not p)
    if q.op == 'bool' and ((q.args[0] == 'and') == bool(p)):
        out = []
        for x in q.args[1]:
            out += atoms_of(x, p)
        return out
    return [(q, p)]


def saved(c, pkg, name, r, w):
    T_ = Taint(r)
    ok = True
    for e in w:
        z = rank_zero(e.pc)
        if z is not True:
            c.violate('rank-zero', func_of(e), e.loc, '%s: the writer is called %s' % (name, 'on every process' if z is None else 'on the processes other than rank zero'))
            ok = False
        other = [q for q, p in e.pc if T_(q) and rank_zero(((q, p),)) is None]
        if other:
            c.violate('rank-zero', func_of(e), e.loc, '%s: the writer is called only when %s' % (name, show(other[0], 4)))
            ok = False
    seen = {}
    for e in w:
        k = (tuple(r.deep(x) for x in e.d['args']), e.d['kw'])
        prev = seen.get(k)
        if prev is not None and not exclusive(prev.pc, e.pc):
            c.violate('once', func_of(e), e.loc, '%s: %s is saved to the same place twice' % (name, show(k[0][0], 3) if k[0] else ''))
            ok = False
        seen[k] = e
        if e.loops:
            L = [r.an.loops.get(x) for x in e.loops]
            lv = {x for a in k[0] if isinstance(a, T) for x in walk(a) if x.op == 'lv'}
            if not lv:
                raise Undecided('writer called in a loop')
    ev = colls(pkg, r)
    for e in w:
        own = set((q, p) for q, p in e.pc if rank_zero(((q, p),)) is None)
        after = [b for b, n, o in ev if b.seq > e.seq and n in ('barrier', 'bcast', 'allreduce', 'allgather') and set(b.pc) <= own and set(b.loops) <= set(e.loops)]
        if n_bcast(after, ev) is None:
            c.violate('barrier', func_of(e), e.loc, '%s: processes can return before rank zero has written' % name)
            ok = False
    rets = [e for e in r.events if e.kind == 'return' and len(e.stack) == 1]
    return '%d calls of the writer' % len(w) if ok else False


def n_bcast(after, ev):
    return after[0] if after else None


def exclusive(a, b):
    d = dict(a)
    return any(q in d and d[q] != p for q, p in b)


def stored(c, pkg, name, r):
    puts = [e for e in r.events if e.kind == 'mcall' and e.d['name'] == 'put']
    if not puts:
        raise Undecided('no vector is put')
    ev = colls(pkg, r)
    last = max(puts, key=lambda e: e.seq)
    after = [b for b, n, o in ev if b.seq > last.seq and n in ('barrier', 'allreduce', 'allgather') and not b.loops
             and not [q for q in b.pc if q not in last.pc]]
    if not after:
        c.violate('barrier', name, last.loc, '%s: processes can return before the others have stored their vectors' % name)
        return False
    return ''


# ------------------------------------------------------------------ P04
def reader(t):
    return t.op == 'call' and ((t.args[0].op == 'attr' and t.args[0].args[1] in ('get_array', '_get_array')) or t.args[0] is sym('get_array'))


def extra(t):
    if reader(t):
        return True
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith(NODET):
        return True
    return None


@prop('P04', 'taint analysis of the attributes and results: rank, time, received messages, files read locally and factorisations computed locally',
      'Every public method of the handle classes, all paths; a broadcast, all-gather or all-reduction clears the taint.')
def p04(c):
    pkg = package('mpiN')
    c.rule('same-everywhere', 'no attribute or result depends on the rank, the time, a message, a file read or factorisation made by every process for itself')
    c.rule('read-once', 'the user\'s reader is called by rank zero only')
    n = 0
    for name, f, cl in entries(pkg):
        if cl is None or not ('Handles' in cl.name or 'LTIGalerkin' in cl.name):
            continue
        if cl.name in ('LTIGalerkinProjectionArrays',) or name.split('.')[1] in ('__init__', '__eq__', 'print_msg'):
            continue
        r = cached_run(pkg, f, cls=cl)
        if r is None:
            c.undecided(name, 'not analysed')
            continue
        n += 1
        c.ob(name, same, c, pkg, name, r)
        c.note('methods')
    if n < 30:
        c.undecided('entry points', 'only %d methods' % n)


HELPER = {'prev_print_time'}


def same(c, pkg, name, r):
    T_ = Taint(r, extra)
    ok = True
    k = 0
    for e in r.events:
        if e.kind == 'attrset' and e.d['name'] not in HELPER:
            if 'print' in e.d['name'] or 'time' in e.d['name']:
                continue
            k += 1
            v = r.deep(e.d['value'])
            if T_(v):
                c.violate('same-everywhere', func_of(e), e.loc, '%s: %s may differ between processes: %s' % (name, e.d['name'], why(T_, v)))
                ok = False
            elif any(T_(q) for q, p in e.pc) and not in_parallel(e):
                c.violate('same-everywhere', func_of(e), e.loc, '%s: %s is set only on some processes' % (name, e.d['name']))
                ok = False
        if e.kind == 'call' and reader(mk('call', e.d['func'], (), ())):
            k += 1
            if rank_zero(e.pc) is not True:
                c.violate('read-once', func_of(e), e.loc, '%s: the reader is called by every process' % name)
                ok = False
    v = r.deep(r.result)
    if r.st.alive and v is not NONE and not name.endswith(('__eq__', '__ne__')):
        if T_(v):
            c.violate('same-everywhere', name, '%s:0' % name, '%s returns a value that may differ between processes: %s' % (name, why(T_, v)))
            ok = False
    return '%d attributes and reads' % k if ok else False


def why(T_, v):
    """A smallest tainted subterm."""
    x = v
    for _ in range(60):
        nxt = None
        st = [y for a in x.args for y in (flat(a)) if isinstance(y, T) and T_(y)]
        if not st:
            break
        x = st[0]
    return show(x, 4)


def flat(a):
    if isinstance(a, tuple):
        for y in a:
            for z in flat(y):
                yield z
    else:
        yield a


# ------------------------------------------------------------------ P13
@prop('P13', 'abstract interpretation of the helpers with a symbolic function in the three worlds', 'All paths of the helper functions.')
def p13(c):
    c.rule('once', 'the function is called exactly once, with the arguments given, under rank zero')
    c.rule('value', 'the result is rank zero\'s value (broadcast), or None on the other processes (not broadcast)')
    for world in ('nompi', 'mpi1', 'mpiN'):
        pkg = package(world)
        for n in ('call_from_rank_zero', 'call_and_bcast', 'bcast'):
            c.ob('%s in %s' % (n, world), helper, c, pkg, world, n)


def helper(c, pkg, world, n):
    q = 'parallel.' + n
    f = pkg.func(q)
    if f is None:
        raise Undecided('not found')
    loc = '%s:%d' % (f.module.path, f.node.lineno)
    r = Run(pkg)
    if n == 'bcast':
        v = r.deep(r.call(q, [sym('x')]))
        want = sym('x')
    else:
        v = r.deep(r.call(q, [sym('f'), sym('a1'), sym('a2')], [('k1', sym('b1'))]))
        calls = [e for e in r.events if e.kind == 'call' and e.d['func'] is sym('f')]
        good = [e for e in calls if e.d['args'] == (sym('a1'), sym('a2')) and dict(e.d['kw']) == {'k1': sym('b1')}]
        if any(e not in good for e in calls):
            e = [e for e in calls if e not in good][0]
            c.violate('once', q, e.loc, '%s calls the function with %s %s' % (n, show(mk('tuple', e.d['args']), 4), e.d['kw']))
            return False
        if len(good) > 1 and not all(exclusive(a.pc, b.pc) for i, a in enumerate(good) for b in good[:i]):
            c.violate('once', q, good[1].loc, '%s calls the function more than once' % n)
            return False
        if not good:
            if r.st.alive and not [e for e in r.events if e.kind in ('call', 'mcall') and comm_op(e) is None]:
                c.violate('once', q, loc, '%s does not call the function' % n)
                return False
            raise Undecided('call of the function not found')
        if world == 'mpiN' and not all(rank_zero(e.pc) is True for e in good):
            c.violate('once', q, good[0].loc, '%s calls the function on other processes than rank zero' % n)
            return False
        if world == 'mpiN':
            rest = [x for x in good[0].pc if rank_zero((x,)) is None]
            if rest and len(good) == 1:
                c.violate('once', q, good[0].loc, '%s calls the function only when %s' % (n, show(rest[0][0], 4)))
                return False
        want = good[0].d['result'] if 'result' in good[0].d else mk('call', sym('f'), (sym('a1'), sym('a2')), (('k1', sym('b1')),))
    if not r.st.alive:
        raise Undecided('always raises')
    if world != 'mpiN':
        if v is not want:
            c.violate('value', q, loc, '%s returns %s in a serial run' % (n, show(v, 4)))
            return False
        return ''
    if n == 'call_from_rank_zero':
        for pol, w in ((True, want), (False, NONE)):
            got = under(v, pol)
            if got is not w:
                c.violate('value', q, loc, '%s returns %s on %s' % (n, show(got, 4), 'rank zero' if pol else 'the other processes'))
                return False
        return ''
    bc = v
    o = term_comm(bc) if isinstance(bc, T) else None
    if o is None or o.lower() != 'bcast':
        for pol in (True, False):
            g = under(v, pol)
            if term_comm(g) is None and (not pol):
                c.violate('value', q, loc, '%s returns %s on the other processes, which is not the value broadcast' % (n, show(g, 4)))
                return False
        raise Undecided('result %s' % show(v, 4))
    args, kw = (bc.args[1], dict(bc.args[2])) if bc.op == 'call' else (bc.args[2], dict(bc.args[3]))
    root = kw.get('root', args[1] if len(args) > 1 else const(0))
    if root is not const(0):
        c.violate('value', q, loc, '%s broadcasts from process %s' % (n, show(root)))
        return False
    if under(r.deep(args[0]), True) is not want:
        c.violate('value', q, loc, '%s broadcasts %s' % (n, show(under(args[0], True), 4)))
        return False
    return ''


def under(v, zero):
    """The value on rank zero / elsewhere."""
    while v.op == 'phi':
        z = rank_zero(((v.args[0], True),))
        if z is None:
            break
        v = v.args[1] if z == zero else v.args[2]
    return v
