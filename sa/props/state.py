"""S01: decomposition objects hold no stale results."""
from ..common import *
from ..report import prop
from ..numrun import PRIMS, floc
from .handles import functions, extname, internal
from .names import all_classes

NOTE = ('Dependence analysis between the attributes an object has when a method is entered and those it leaves, over the symbolic execution of every method of every decomposition class. '
        'User functions and vector spaces are treated as functions of their arguments.')


def subjects(pkg):
    for cl in all_classes(pkg):
        if cl.module.name in ('vectorspace', 'vectors') or cl.module.name.startswith('tests'):
            continue
        ms = methods_of(cl)
        if any(n.startswith(('compute', 'reduce')) for n in ms):
            yield cl, ms


def methods_of(cl):
    """{name: Func} including inherited ones."""
    out = {}
    for k in reversed(cl.mro()):
        for n, t in k.ns.items():
            if isinstance(t, T) and t.op == 'fn' and t.args[0].kind in ('function', 'property') and not (n.startswith('__') and n != '__init__'):
                out[n] = t.args[0]
    return out


class M(object):
    """What one method does to the attributes."""

    def __init__(self, pkg, cl, f, given=()):
        self.f, self.name = f, f.name
        r = self.r = Run(pkg, (lambda t: decide_none(t, given)) if given else None, dict(PRIMS))
        args, kw = r.symargs(f)
        self.o = o = r.an.newobj(cl, r.st, open_as=sym('self'))
        self.result = r.an.invoke(f, [o] + args, kw, r.st, f.module, f.node)
        self.params = [a.op == 'sym' and a.args[0] or '' for a in args] + [k for k, v in kw]
        a = f.node.args
        names = [x.arg for x in a.args][1:] + [x.arg for x in a.kwonlyargs]
        n = len(a.defaults)
        self.required = set([x.arg for x in a.args][1:][:len(a.args) - 1 - n])
        self.optional = set(names) - self.required
        self.alive = r.st.alive
        self.final, self.assigned = {}, {}
        for e in r.events:
            if e.kind == 'attrset' and e.d['base'] is o:
                self.assigned.setdefault(e.d['name'], []).append(e)
        for x in self.assigned:
            self.final[x] = r.deep(r.attr(o, x)) if self.alive else None
        self.uses = set()
        for e in r.events:
            for v in list(e.d.values()) + [t for t, _ in e.pc]:
                self.see(v)
        self.see(self.result)

    def see(self, v):
        if isinstance(v, (list, tuple)):
            for x in v:
                self.see(x)
        elif isinstance(v, dict):
            for x in v.values():
                self.see(x)
        elif isinstance(v, T):
            self.uses |= attrs(self.r.deep(v))


def decide_none(t, given):
    if t.op == 'cmp' and t.args[0] in ('is', '==') and NONE in t.args[1:]:
        x = t.args[1] if t.args[2] is NONE else t.args[2]
        if x in given:
            return False
    return None


def attrs(t):
    s = sym('self')
    return {y.args[1] for y in walk(t) if y.op == 'attr' and y.args[0] is s}


def syms(t):
    return {y.args[0] for y in walk(t) if y.op == 'sym' and y.args[0] != 'self'}


def computed(v):
    """Not merely an argument, an attribute or a constant, or a choice of these."""
    while v.op == 'index' and v.args[1].op == 'slice':
        v = v.args[0]
    if v.op == 'phi':
        return any(computed(x) for x in v.args[1:])
    if v.op == 'prim' and v.args[0] == 'util.make_iterable' or v.op == 'call' and extname(v.args[0]) in ('builtins.list', 'builtins.tuple'):
        return False
    return v.op not in ('sym', 'attr', 'const', 'obj', 'class', 'fn', 'ref')


def flag(vals):
    """A mark or a time of day, not a result."""
    def ok(v):
        if v.op == 'phi':
            return all(ok(x) for x in v.args[1:])
        return v.op == 'const' or v.op == 'attr' or v.op == 'call' and extname(v.args[0]).startswith('time.') or v.op == 'bin' and v.args[0] in '+-' and all(ok(x) for x in v.args[1:])
    return all(ok(v) for v in vals)


@prop('S01', 'dependence analysis between the attributes found and left by every method of the decomposition classes', NOTE)
def s01(c):
    c.rule('replaces', 'a method that recomputes results does not let them depend on results it is to replace')
    c.rule('complete', 'the decomposition of new data replaces every result that later computations use')
    c.rule('latest', 'handles given to a later step are used in place of those given before')
    c.rule('settings', 'settings made at construction are not changed by computations')
    pkg = package('nompi')
    n = 0
    for cl, ms in subjects(pkg):
        c.ob(cl.qual, one, c, pkg, cl, ms)
        n += 1
    c.note('classes', n)


def one(c, pkg, cl, ms):
    runs, skipped = {}, []
    for n, f in sorted(ms.items()):
        if n == '__init__' or f.kind == 'property' or isinstance(getattr(f.node, 'args', None), type(None)) or internal(pkg, f):
            continue
        try:
            runs[n] = M(pkg, cl, f)
        except (Undecided, LookupError) as e:
            skipped.append(n)
    if skipped:
        raise Undecided('not analysed: ' + ', '.join(skipped))
    init = ms.get('__init__')
    cons = M(pkg, cl, init) if init is not None else None
    live = {n: m for n, m in runs.items() if m.alive}
    derived = {x for m in live.values() for x in m.assigned}
    ok, facts = True, 0
    caches = {x for x in derived if any(m.final.get(x) is not None and x in attrs(m.final[x]) for m in live.values())
              and all(sound_cache(live, m, x, m.final[x]) for m in live.values() if m.final.get(x) is not None and x in attrs(m.final[x]))}
    # --- replaces
    for n, m in live.items():
        if n.startswith('_'):
            continue
        if not any(computed(m.final[x]) and not flag([m.final[x]]) for x in m.final):
            continue
        for x, v in m.final.items():
            if flag([v]):
                continue
            facts += 1
            old = (attrs(v) & set(m.assigned)) - caches
            if old and not any(x in k.uses for k in live.values()):
                # kept on some paths, but nothing reads it
                old -= {x}
            if not old:
                continue
            y = x if x in old else sorted(old)[0]
            e = m.assigned[x][-1]
            c.violate('replaces', '%s.%s' % (cl.qual, n), e.loc, 'what %s leaves in self.%s depends on the self.%s of an earlier call' % (n, x, y))
            ok = False
    # --- complete
    feeds = [m for n, m in live.items() if takes_data(m)]
    for m in feeds:
        for n, l in live.items():
            if n.startswith('_') or l in feeds or not n.startswith(('compute', 'reduce')):
                continue
            for x in sorted(l.uses & derived - caches):
                if x in l.assigned and x not in attrs(l.final[x]) and x not in used_early(l, x):
                    continue
                makers = [k for k in live.values() if x in k.assigned]
                if x in m.final and x not in attrs(m.final[x]):
                    facts += 1
                    continue
                if x in m.final:
                    e = m.assigned[x][-1]
                    c.violate('complete', '%s.%s' % (cl.qual, m.name), e.loc, 'on some paths %s keeps the self.%s of an earlier call, which %s uses' % (m.name, x, n))
                    ok = False
                elif any(takes_data(k) for k in makers) and all(k in feeds for k in makers if takes_data(k)) and len(feeds) > 1:
                    # several kinds of data, each given on its own
                    facts += 1
                else:
                    c.violate('complete', '%s.%s' % (cl.qual, m.name), floc(m.f), '%s does not replace self.%s, which %s uses' % (m.name, x, n))
                    ok = False
    # --- latest
    for n, m in live.items():
        for p in sorted(m.optional):
            if p.endswith('handles'):
                facts += 1
                if not reaches(m, p):
                    c.violate('latest', '%s.%s' % (cl.qual, n), floc(m.f), 'the %s given to %s are not used' % (p, n))
                    ok = False
                    continue
            holders = [x for x, v in m.final.items() if sym(p) in set(walk(v)) and not computed(v)]
            if not holders or m in feeds:
                continue
            facts += 1
            m2 = M(pkg, cl, m.f, given=(sym(p),))
            for x in holders:
                if x in m2.final and m2.final[x] is not None and x in attrs(m2.final[x]):
                    c.violate('latest', '%s.%s' % (cl.qual, n), m.assigned[x][-1].loc, 'the %s given to %s do not replace self.%s when that is set' % (p, n, x))
                    ok = False
    # --- settings
    if cons is not None and cons.alive:
        ps = set(cons.params) - {''}
        for x, v in cons.final.items():
            if v is None or x not in derived or not (syms(v) & ps):
                continue
            facts += 1
            for n, m in live.items():
                if x in m.assigned and not setter(m) and not restores(m.final[x], cons, x) and not given_anew(m, x) and not flag([m.final[x]]):
                    c.violate('settings', '%s.%s' % (cl.qual, n), m.assigned[x][-1].loc, 'self.%s, set by the constructor from %s, is overwritten by %s with %s' % (
                        x, ', '.join(sorted(syms(v) & ps)), n, show(m.final[x], 3)[:80]))
                    ok = False
    for n, m in live.items():
        for e in m.r.events:
            if e.kind == 'attrset' and isinstance(e.d['base'], T):
                b = m.r.deep(e.d['base'])
                if b.op == 'attr' and b.args[0] is sym('self') and not setter(m) and not flag([m.r.deep(e.d['value'])]) or \
                        b.op == 'attr' and b.args[0] is sym('self') and cons is not None and b.args[1] in cons.final and e.d['name'] in ('verbosity', 'inner_product', 'weights', 'max_vecs_per_node', 'print_interval'):
                    c.violate('settings', '%s.%s' % (cl.qual, n), e.loc, '%s changes %s of self.%s' % (n, e.d['name'], b.args[1]))
                    ok = False
    if not ok:
        return False
    return '%d methods, %d dependences' % (len(live), facts)


def setter(m):
    return m.name.startswith('set')


def given_anew(m, x):
    """The method has a required argument for it."""
    return bool(syms(m.final[x]) & m.required)


def restores(v, cons, x):
    """Without an argument in its place, the value comes from what the constructor keeps."""
    kept = {a for a, w in cons.final.items() if w is not None and syms(w) & syms(cons.final[x])}
    return bool(attrs(v) & kept) or not v.op == 'sym' and not computed(v) and v.op != 'phi' and v.op != 'const'


def reaches(m, p):
    """The argument is part of a call or of what the method leaves (not merely of a condition)."""
    s = sym(p)

    def has(v):
        if isinstance(v, T):
            return any(y is s for y in parts(m.r.deep(v)))
        if isinstance(v, dict):
            v = list(v.values())
        return isinstance(v, (list, tuple)) and any(has(x) for x in v)
    for e in m.r.events:
        if e.kind in ('call', 'mcall', 'prim'):
            d = e.d
            if e.kind == 'prim' and d['qual'] == 'util.make_iterable' or e.kind == 'call' and extname(d['func']).startswith('builtins.'):
                continue
            if has(d.get('args')) or has(d.get('kw')) or has(d.get('recv')):
                return True
    return any(v is not None and has(v) for v in m.final.values()) or has(m.result)


def parts(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in (t.args[1:] if t.op == 'phi' else t.args):
        for y in x if isinstance(x, tuple) else (x,):
            for z in y if isinstance(y, tuple) else (y,):
                if isinstance(z, T):
                    yield from parts(z, seen)


def used_early(l, x):
    """Nothing: entry values only appear as attributes of self."""
    return {x} if x in l.uses else set()


def takes_data(m):
    """The method stores a required argument and computes results from it."""
    stored = {p for x, v in m.final.items() if v is not None and not computed(v) for p in syms(v) & m.required}
    return bool(stored) and any(v is not None and computed(v) and not flag([v]) for v in m.final.values())


def sound_cache(live, m, x, v):
    """x is kept only as long as nothing it is computed from is changed."""
    src = set()

    def go(t):
        if t.op == 'phi':
            for y in t.args[1:]:
                go(y)
        elif not (t.op == 'attr' and t.args[0] is sym('self') and t.args[1] == x):
            src.update(attrs(t))
            if syms(t):
                src.add(None)
    go(v)
    if None in src or x in src:
        return False
    for k in live.values():
        if set(k.assigned) & src:
            if x not in k.final or k.final[x] is None or x in attrs(k.final[x]):
                return False
    return True
