"""Parallel effects: collectives, messages, taint by rank and time."""
from .common import *
from .interp import RANK, NPROCS

WORLD = 'mpi4py.MPI.COMM_WORLD'
COLL = {'barrier', 'bcast', 'allgather', 'allreduce', 'reduce', 'gather', 'scatter', 'scan', 'exscan', 'alltoall', 'gatherv', 'scatterv', 'allgatherv',
        'reduce_scatter', 'ibarrier', 'ibcast', 'allgatherv', 'split', 'dup', 'spawn'}
SAME = {'bcast', 'allgather', 'allreduce', 'barrier', 'alltoall_same'}      # collectives returning the same value everywhere
P2P = {'isend', 'send', 'recv', 'irecv', 'sendrecv', 'ssend', 'bsend', 'issend', 'rsend', 'ibsend', 'sendrecv_replace', 'probe', 'iprobe', 'mrecv'}
CLOCK = ('time.', 'random.', 'numpy.random.', 'os.getpid', 'socket.', 'uuid.', 'secrets.', 'os.environ', 'os.getenv', 'tempfile.', 'builtins.id', 'threading.', 'platform.')
NODET = ('numpy.linalg.eig', 'numpy.linalg.eigh', 'numpy.linalg.svd', 'scipy.linalg.', 'numpy.linalg.eigvals', 'numpy.linalg.eigvalsh', 'numpy.linalg.qr',
         'numpy.random.', 'scipy.sparse.linalg.')


def comm_name(f):
    """Name of a communicator operation called through the term f (a function value), or None."""
    if f.op == 'ext' and f.args[0].startswith(WORLD + '.'):
        return f.args[0][len(WORLD) + 1:]
    return None


def is_comm(t):
    if t.op == 'ext' and t.args[0] == WORLD:
        return True
    if t.op == 'call' and t.args[0].op == 'class' and 'Intracomm' in t.args[0].args[0].name:
        return True
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith('mpi4py.MPI.'):
        return True
    return False


def comm_op(e):
    """(operation name, positional args, keyword args) of a communicator event."""
    if e.kind == 'call':
        n = comm_name(e.d['func'])
        if n is not None:
            return n, e.d['args'], dict(e.d['kw'])
    if e.kind == 'mcall' and is_comm(e.d['recv']):
        return e.d['name'], e.d['args'], dict(e.d['kw'])
    return None


def term_comm(t):
    if t.op == 'call':
        return comm_name(t.args[0])
    if t.op == 'mcall' and is_comm(t.args[0]):
        return t.args[1]
    return None


class Taint(object):
    """Which terms may differ from process to process (or from run to run)."""

    def __init__(self, r, extra=None):
        self.r, self.an, self.extra = r, r.an, extra
        self.mus = set()
        self.memo = {}
        self.busy = set()
        self.solve()

    def solve(self):
        while True:
            self.memo = {}
            new = set()
            for lid, L in self.an.loops.items():
                ctl = None
                for k, b in L.back.items():
                    mu = mk('mu', lid, k)
                    if mu in self.mus:
                        continue
                    if self.t(b) or self.t(L.init.get(k, NONE)):
                        new.add(mu)
                    else:
                        if ctl is None:
                            ctl = self.control(L)
                        if ctl and b is not mu:
                            new.add(mu)
            if not new:
                return
            self.mus |= new

    def control(self, L):
        """The number of iterations differs between processes."""
        if L.cond is not None and self.t(L.cond):
            return True
        if isinstance(L.count, T) and self.t(L.count):
            return True
        for x in list(L.breaks) + list(L.returns):
            for c in conds_of(x):
                if self.t(c):
                    return True
        return False

    def __call__(self, t):
        return self.t(t)

    def t(self, t):
        if t in self.memo:
            return self.memo[t]
        if not isinstance(t, T):
            return any(self.t(x) for x in t) if isinstance(t, tuple) else False
        self.memo[t] = False
        v = self.tt(t)
        self.memo[t] = v
        return v

    def tt(self, t):
        if t is RANK:
            return True
        o = t.op
        if o == 'mu':
            return t in self.mus
        if o == 'ref':
            d = self.r.deep(t)
            return False if d is t else self.t(d)
        if o in ('const', 'sym', 'ext', 'glob', 'fn', 'class', 'module', 'obj'):
            if o == 'ext' and t.args[0].startswith(CLOCK):
                return True
            return False
        n = term_comm(t)
        if n is not None:
            if n.lower() in SAME:
                return False
            if n.lower() in COLL | P2P or n in ('Get_rank', 'rank'):
                return True
        if o == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith(CLOCK):
            return True
        if self.extra is not None:
            x = self.extra(t)
            if x is not None:
                return x
        if o == 'loopout':
            L = self.an.loops.get(t.args[0])
            if L is not None and self.control(L):
                return True
        if o in ('comp', 'flatcomp', 'lv'):
            if isinstance(t.args[1], T) and self.t(t.args[1]):
                return True
        return any(self.t(x) for x in t.args if isinstance(x, (T, tuple)))


def conds_of(x):
    """Conditions attached to a recorded break or return."""
    return [c for c, p in x[0]] if isinstance(x, tuple) and isinstance(x[0], tuple) else []


# ---------------------------------------------------------------- entry points
def collective_methods(pkg):
    """Names of methods of package classes that reach a communicator."""
    key = ('collmeth', id(pkg))
    if key in _cache:
        return _cache[key]
    out = set()
    for n, cl in public_classes(pkg).items():
        for m, f in methods(cl).items():
            if m.startswith('__'):
                continue
            r = cached_run(pkg, f, 'method', cl)
            if r is None:
                continue
            if any(comm_op(e) for e in r.events):
                out.add(m)
    _cache[key] = out
    return out


_cache = {}


def cached_run(pkg, f, kind='any', cls=None, assume=None, key=None):
    k = (id(pkg), f, cls, key)
    if k not in _cache:
        try:
            _cache[k] = run_on(pkg, f, cls, assume)
        except RecursionError:
            raise
        except Exception as e:      # an unsupported construct
            _cache[k] = None
            _cache[k + ('err',)] = e
    return _cache[k]


def run_on(pkg, f, cls=None, assume=None):
    """Interpret a function, methods on an open object of class cls."""
    r = Run(pkg, assume)
    args, kw = r.symargs(f)
    if f.cls is not None and f.kind in ('function', 'property'):
        o = r.an.newobj(cls or f.cls, r.st) if f.name == '__init__' else r.an.newobj(cls or f.cls, r.st, open_as=sym('self'))
        args = [o] + args
        r.self_obj = o
    r.result = r.an.invoke(f, args, kw, r.st, f.module, __import__('ast').Pass(lineno=0))
    return r


def entries(pkg):
    """(name, Func, class or None) of everything a user can call."""
    out = []
    for n, f in sorted(public_funcs(pkg).items()):
        out.append((n, f, None))
    for n, cl in sorted(public_classes(pkg).items()):
        for m, f in sorted(methods(cl).items()):
            if m.startswith('_') and m not in ('__init__', '__eq__', '__call__'):
                continue
            if cl.name.startswith('_'):
                continue
            out.append(('%s.%s' % (n, m), f, cl))
    pm = pkg.modules.get('parallel')
    if pm is not None:
        for n, v in sorted(pm.env.items()):
            if v.op == 'fn' and not n.startswith('_') and v.args[0].module is pm:
                out.append(('parallel.%s' % n, v.args[0], None))
    return out


def opaque_coll(pkg, e):
    """A call on an object of unknown class of a method that is collective in this package."""
    if e.kind == 'mcall' and not is_comm(e.d['recv']) and e.d['recv'].op in ('attr', 'sym', 'phi') and e.d['name'] in collective_methods(pkg):
        return e.d['name']
    if e.kind == 'call' and e.d['func'].op == 'attr' and e.d['func'].args[1] in collective_methods(pkg):
        return e.d['func'].args[1]
    return None


def consecutive(r, c, p):
    """The condition can only have the other outcome: a slice of a process's tasks taken from a range is the range of its ends."""
    if c.op == 'cmp' and c.args[0] == '==' and p is False:
        for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if b.op == 'range' and len(b.args) == 3 and b.args[2] is const(1):
                x = a
                while x.op == 'index' and x.args[1].op == 'slice' and x.args[1].args[0] in (NONE, const(0)) and x.args[1].args[1] is NONE and x.args[1].args[2] is NONE:
                    x = x.args[0]
                first = mk('index', x, const(0))
                last = mk('index', x, const(-1))
                if b.args[0] is first and b.args[1] is mk('bin', '+', last, const(1)) and task_list(r, x):
                    return True
    return False


def task_list(r, x):
    """x is one process's share of a range (an element of find_assignments(list(range(..))))."""
    if x.op != 'index':
        return False
    return assignment_of(r, x.args[0]) is not None


def assignment_of(r, t):
    """The task list of which t is the assignment to all processes, from the recorded calls."""
    for e in r.events:
        if e.kind == 'exit' and e.d['func'].qual == 'parallel.find_assignments' and r.deep(e.d['result']) is t:
            # the call's arguments
            for q in r.events:
                if q.kind == 'enter' and q.d['func'] is e.d['func'] and q.seq < e.seq and q.pc == e.pc and q.loops == e.loops and q.loc == e.loc:
                    a = q.d['args']
                    v = a.get('tasks') if isinstance(a, dict) else None
                    return r.deep(v) if v is not None else None
    return None
