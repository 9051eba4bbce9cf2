"""P05: a single process needs no MPI; S04: verbosity."""
import ast
from ..par import *
from ..report import prop
from .par_rules import rank_zero, atoms_of


def upper(t, depth=0):
    """Upper and lower bounds (lo, hi) of a number, None when unknown."""
    import math
    if depth > 40:
        return None, None
    if isinstance(t, (int, float)):
        return t, t
    if not isinstance(t, T):
        return None, None
    o, a = t.op, t.args
    if o == 'const' and isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
        return a[0], a[0]
    if o == 'phi':
        x, y = upper(a[1], depth + 1), upper(a[2], depth + 1)
        return (None if None in (x[0], y[0]) else min(x[0], y[0])), (None if None in (x[1], y[1]) else max(x[1], y[1]))
    if o == 'bin':
        x, y = upper(a[1], depth + 1), upper(a[2], depth + 1)

        def lift(f, p, q):
            return None if p is None or q is None else f(p, q)
        if a[0] == '+':
            return lift(lambda p, q: p + q, x[0], y[0]), lift(lambda p, q: p + q, x[1], y[1])
        if a[0] == '-':
            return lift(lambda p, q: p - q, x[0], y[1]), lift(lambda p, q: p - q, x[1], y[0])
        if a[0] in ('/', '//') and y[0] is not None and y[0] == y[1] and y[0] > 0:
            f = (lambda p, q: p / q) if a[0] == '/' else (lambda p, q: p // q)
            return lift(f, x[0], y[0]), lift(f, x[1], y[0])
        if a[0] == '*' and y[0] is not None and y[0] == y[1] and y[0] >= 0:
            return lift(lambda p, q: p * q, x[0], y[0]), lift(lambda p, q: p * q, x[1], y[0])
        if a[0] == '*' and x[0] is not None and x[0] == x[1] and x[0] >= 0:
            return lift(lambda p, q: p * q, y[0], x[0]), lift(lambda p, q: p * q, y[1], x[0])
    if o == 'call' and a[0].op == 'ext' and len(a[1]) >= 1:
        n = a[0].args[0]
        if n in ('builtins.int', 'builtins.float', 'numpy.ceil', 'math.ceil', 'numpy.floor', 'math.floor'):
            x = upper(a[1][0], depth + 1)
            f = {'int': int, 'float': float, 'ceil': lambda p: math.ceil(p), 'floor': lambda p: math.floor(p)}[n.split('.')[1]]
            return tuple(None if p is None else f(p) for p in x)
        if n == 'builtins.len':
            return seqlen(a[1][0], depth + 1)
        if n == 'builtins.abs':
            x = upper(a[1][0], depth + 1)
            return (x if x[0] is not None and x[0] >= 0 else (0, None))
        if n == 'builtins.sum' and len(a[1]) == 1 and a[1][0].op in ('comp', 'list', 'tuple'):
            s = a[1][0]
            if s.op != 'comp':
                xs = [upper(y, depth + 1) for y in s.args[0]]
                return (None if any(x[0] is None for x in xs) else sum(x[0] for x in xs)), (None if any(x[1] is None for x in xs) else sum(x[1] for x in xs))
            k, x = seqlen(s, depth + 1), upper(s.args[2], depth + 1)
            if x[0] is not None and x[0] >= 0:
                return x[0] * k[0], (None if None in (x[1], k[1]) else x[1] * k[1])
            return None, None
        if n in ('builtins.max', 'builtins.min') and len(a[1]) > 1:
            xs = [upper(y, depth + 1) for y in a[1]]
            f = max if n.endswith('max') else min
            los, his = [x[0] for x in xs], [x[1] for x in xs]
            if f is max:
                return (max([x for x in los if x is not None], default=None)), (None if None in his else max(his))
            return (None if None in los else min(los)), (min([x for x in his if x is not None], default=None))
    return None, None


def seqlen(t, depth):
    o, a = t.op, t.args
    if o in ('list', 'tuple'):
        return len(a[0]), len(a[0])
    if o == 'phi':
        x, y = seqlen(a[1], depth + 1), seqlen(a[2], depth + 1)
        return (None if None in (x[0], y[0]) else min(x[0], y[0])), (None if None in (x[1], y[1]) else max(x[1], y[1]))
    if o == 'comp':
        x = upper(a[1], depth + 1) if isinstance(a[1], T) else (a[1], a[1])
        return (0 if a[3] else x[0]), x[1]
    return 0, None


def refuted(q, p):
    """The intervals exclude that the condition q has the truth value p."""
    while q.op == 'not':
        q, p = q.args[0], not p
    if q.op in ('and', 'or') or q.op == 'bool':
        return False
    if q.op != 'cmp' or q.args[0] not in ('<', '=='):
        lo, hi = upper(q)
        if lo is None or hi is None:
            return False
        return (lo == hi == 0) if p else (lo > 0 or hi < 0)
    (a, b), (x, y) = upper(q.args[1]), upper(q.args[2])
    if q.args[0] == '<':
        if p:
            return a is not None and y is not None and a >= y
        return b is not None and x is not None and b < x
    if p:
        return (a is not None and y is not None and a > y) or (b is not None and x is not None and b < x)
    return None not in (a, b, x, y) and a == b == x == y


def opaque(t):
    """The value depends on a selection or on what a loop leaves behind: the intervals do not decide it."""
    for x in walk(t):
        if x.op in ('loopout', 'mu', 'flatcomp', 'some') or (x.op == 'comp' and x.args[3]):
            return True
        if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('builtins.sum', 'builtins.any', 'builtins.all', 'builtins.filter', 'numpy.sum', 'numpy.count_nonzero', 'numpy.any', 'numpy.all'):
            return True
    return False


@prop('P05', 'abstract interpretation of every entry point in the worlds without mpi4py and with one process: no communicator operation is reachable',
      'Every public function and method, all paths; loops are excluded when interval analysis bounds their length by zero.')
def p05(c):
    c.rule('no-communicator', 'with one process no path reaches an operation of a communicator; without mpi4py no path uses the missing communicator')
    c.rule('optional-import', 'mpi4py is imported only where its absence is handled')
    for world in ('nompi', 'mpi1'):
        pkg = package(world)
        for name, f, cl in entries(pkg):
            r = cached_run(pkg, f, cls=cl)
            if r is None:
                c.undecided('%s (%s)' % (name, world), 'not analysed')
                continue
            c.ob('%s (%s)' % (name, world), nocomm, c, world, name, r)
            c.note('functions')
    pkg = package('nompi')
    for m in pkg.modules.values():
        if m.name == 'reductions':
            continue
        c.ob('imports of %s' % m.name, imports, c, m)


def nocomm(c, world, name, r):
    T_ok, late = True, None
    for e in r.events:
        o = comm_op(e)
        bad = None
        if o is not None and o[0] not in ('Wait', 'wait', 'Test', 'Get_rank', 'Get_size'):
            bad = o[0]
        elif e.kind in ('call', 'mcall'):
            x = e.d.get('recv') if e.kind == 'mcall' else (e.d['func'].args[0] if e.d['func'].op == 'attr' else None)
            if x is NONE:
                bad = 'an operation of the missing communicator' if world == 'nompi' else None
        if bad is None:
            continue
        counts = [L.count for L in (r.an.loops.get(lid) for lid in e.loops) if L is not None and isinstance(L.count, T)]
        his = [upper(k)[1] for k in counts]
        if any(h is not None and h <= 0 for h in his) or any(refuted(q, p) for q, p in e.pc):
            continue
        if any(h is None and opaque(k) for h, k in zip(his, counts)) or any(opaque(q) for q, p in e.pc):
            late = late or '%s at %s: whether it is reached is not determined' % (bad, e.loc)
            continue
        T_ok = False
        c.violate('no-communicator', func_of(e), e.loc, '%s reaches %s with %s' % (name, bad, 'no MPI library' if world == 'nompi' else 'one process'))
    if T_ok and late:
        raise Undecided(late)
    return '' if T_ok else False


def imports(c, m):
    def guarded(path):
        for p, node in path:
            if isinstance(p, ast.Try) and node in p.body:
                for h in p.handlers:
                    ns = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else list(h.type.elts) if h.type is not None else [None]
                    for n in ns:
                        if n is None or (isinstance(n, ast.Name) and n.id in ('ImportError', 'Exception', 'ModuleNotFoundError', 'BaseException')):
                            return True
        return False
    ok = True

    def visit(node, path, infunc):
        nonlocal ok
        for ch in ast.iter_child_nodes(node):
            p2 = path + [(node, ch)]
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                names = [a.name for a in ch.names] if isinstance(ch, ast.Import) else [ch.module or ''] + [a.name for a in ch.names if not ch.module]
                if any(n.split('.')[0] in ('mpi4py', 'reductions') for n in names) and not guarded(p2):
                    cond = any(isinstance(a, ast.If) for a, b in p2)
                    if not cond and not infunc:
                        c.violate('optional-import', m.name, '%s:%d' % (m.path, ch.lineno), 'importing %s fails without mpi4py' % m.name)
                        ok = False
            visit(ch, p2, infunc or isinstance(ch, (ast.FunctionDef, ast.Lambda)))
    visit(m.tree, [], False)
    return '' if ok else False


# ------------------------------------------------------------------ S04
def is_verb(t):
    return (t.op == 'attr' and 'verbos' in str(t.args[1])) or (t.op == 'sym' and 'verbos' in str(t.args[0]))


OUT = ('builtins.print', 'sys.stdout', 'sys.stderr', 'sys.__stdout__', 'sys.__stderr__', 'logging.', 'warnings.warn')


def printing(e):
    if e.kind == 'print':
        return True
    if e.kind == 'call' and e.d['func'].op == 'ext':
        n = e.d['func'].args[0]
        return n == 'builtins.print' or n.endswith(('stdout.write', 'stderr.write'))
    if e.kind == 'mcall' and e.d['name'] in ('write', 'writelines') and streamlike(e.d['recv']):
        return True
    return False


def streamlike(t):
    if t.op == 'ext' and t.args[0].startswith(('sys.std', 'sys.__std')):
        return True
    if t.op == 'phi':
        return any(streamlike(x) for x in t.args[1:])
    if t.op == 'call' and t.args[0] is ext('builtins.getattr') and t.args[1] and t.args[1][0].op in ('module', 'ext'):
        return True
    return False


@prop('S04', 'abstract interpretation with the verbosity fixed to zero (no print reachable) and unknown (prints only on rank zero); dependence of results on the verbosity and the clock',
      'Every public method of the handle classes, all paths.')
def s04(c):
    c.rule('silent', 'with verbosity zero no print is reachable')
    c.rule('rank-zero', 'prints happen on rank zero only')
    c.rule('channel', 'a message goes to the channel requested')
    c.rule('no-influence', 'attributes, results, stored vectors and collectives do not depend on the verbosity or the clock')
    pkg = package('mpiN')
    n = 0

    def zero(t):
        if is_verb(t):
            return False
        if t.op == 'cmp' and is_verb(t.args[1]) and t.args[2].op == 'const' and isinstance(t.args[2].args[0], (int, float)):
            return {'<': 0 < t.args[2].args[0], '==': t.args[2].args[0] == 0}.get(t.args[0])
        if t.op == 'cmp' and is_verb(t.args[2]) and t.args[1].op == 'const' and isinstance(t.args[1].args[0], (int, float)):
            return {'<': t.args[1].args[0] < 0, '==': t.args[1].args[0] == 0}.get(t.args[0])
        if t.op == 'cmp' and t.args[0] == 'is' and is_verb(t.args[1]) and t.args[2] is NONE:
            return False
        return None

    def takes_verbosity(cl):
        i = cl.lookup('__init__')
        i = i[0] if i else None
        return i is not None and i.op == 'fn' and 'verbosity' in [a.arg for a in i.args[0].node.args.args + i.args[0].node.args.kwonlyargs]
    for name, f, cl in entries(pkg):
        if cl is not None and not ('Handles' in cl.name or 'LTIGalerkin' in cl.name) and takes_verbosity(cl):
            r0 = cached_run(pkg, f, cls=cl, assume=zero, key='verb0')
            if r0 is None:
                c.undecided(name, 'not analysed')
            else:
                c.ob(name + ' silent', silent, c, name, r0)
            continue
        if cl is None or not ('Handles' in cl.name or 'LTIGalerkin' in cl.name) or cl.name.endswith('Arrays'):
            continue
        r0 = cached_run(pkg, f, cls=cl, assume=zero, key='verb0')
        r = cached_run(pkg, f, cls=cl)
        if r0 is None or r is None:
            c.undecided(name, 'not analysed')
            continue
        n += 1
        c.ob(name + ' silent', silent, c, name, r0)
        c.ob(name, quiet, c, name, r)
        c.note('methods')
    if n < 30:
        c.undecided('entry points', 'only %d methods' % n)
    c.ob('print_from_rank_zero', channel, c, pkg)


def in_printer(e):
    return any('print' in q[0].split('.')[-1] for q in e.stack) or 'print' in func_of(e).split('.')[-1]


def silent(c, name, r):
    for e in r.events:
        if printing(e):
            c.violate('silent', func_of(e) if not in_parallel(e) else caller(e), e.loc, '%s prints with verbosity zero' % name)
            return False
    return ''


def caller(e):
    for q in reversed(e.stack):
        if not q[0].startswith('parallel.'):
            return q[0]
    return func_of(e)


def quiet(c, name, r):
    ok = True
    for e in r.events:
        if printing(e) and rank_zero(e.pc) is not True:
            c.violate('rank-zero', caller(e), e.loc, '%s prints on every process' % name)
            ok = False

    class V(Taint):
        def tt(self, t):
            if t is RANK:
                return False
            if is_verb(t):
                return True
            if term_comm(t) is not None:
                return False
            return Taint.tt(self, t)
    T_ = V(r)
    for e in r.events:
        what = None
        if e.kind == 'attrset' and not ('print' in e.d['name'] or 'time' in e.d['name'] or 'verbos' in e.d['name']):
            what = 'attribute %s' % e.d['name']
            vals = [r.deep(e.d['value'])]
        elif e.kind == 'mcall' and e.d['name'] in ('put', 'get') and e.d['recv'].op != 'const':
            what = 'vector %s' % e.d['name']
            vals = [r.deep(x) for x in e.d['args']]
        elif comm_op(e) is not None and comm_op(e)[0].lower() in COLL | P2P:
            what = comm_op(e)[0]
            vals = []
        elif e.kind == 'call' and e.d['func'].op == 'attr' and e.d['func'].args[1] in ('put_array', 'get_array', 'inner_product'):
            what = e.d['func'].args[1]
            vals = []
        elif e.kind == 'raise' and not in_printer(e):
            what = 'the error'
            vals = []
        if what is None:
            continue
        if any(T_(v) for v in vals) or any(T_(q) for q, p in e.pc) or any(T_.control(r.an.loops[l]) for l in e.loops if l in r.an.loops):
            c.violate('no-influence', caller(e), e.loc, '%s: %s depends on the verbosity or the clock' % (name, what))
            ok = False
    if r.st.alive and not name.endswith(('__eq__', '__ne__')):
        v = r.deep(r.result)
        if T_(v):
            c.violate('no-influence', name, '%s:0' % name, 'the result of %s depends on the verbosity or the clock' % name)
            ok = False
    return '' if ok else False


def channel(c, pkg):
    f = pkg.func('parallel.print_from_rank_zero')
    if f is None:
        raise Undecided('not found')
    for ch in ('stdout', 'stderr'):
        r = Run(pkg)
        r.call('parallel.print_from_rank_zero', [sym('msg')], [('output_channel', const(ch))])
        ps = [e for e in r.events if printing(e)]
        if not ps:
            raise Undecided('no print')
        for e in ps:
            s = stream_of(e, r)
            if s is None:
                raise Undecided('stream of the message')
            if s != ch:
                c.violate('channel', 'parallel.print_from_rank_zero', e.loc, 'a message for %s is written to %s' % (ch, s))
                return False
            if rank_zero(e.pc) is not True:
                c.violate('rank-zero', 'parallel.print_from_rank_zero', e.loc, 'the message is printed on every process')
                return False
    return ''


def stream_of(e, r):
    if e.kind == 'mcall':
        t = r.deep(e.d['recv'])
    elif e.kind == 'print' or (e.kind == 'call' and e.d['func'].args[0] == 'builtins.print'):
        kw = dict(e.d.get('kw', ()))
        if 'file' not in kw or kw['file'] is NONE:
            return 'stdout'
        t = r.deep(kw['file'])
    else:
        return 'stderr' if 'stderr' in e.d['func'].args[0] else 'stdout'
    if t.op == 'ext' and t.args[0] in ('sys.stdout', 'sys.stderr'):
        return t.args[0][4:]
    if t.op == 'call' and t.args[0] is ext('builtins.getattr') and len(t.args[1]) >= 2 and t.args[1][1].op == 'const':
        return t.args[1][1].args[0]
    return None
