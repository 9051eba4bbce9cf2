"""P14: what the parallel module says about processes and nodes."""
from ..common import *
from ..report import prop
from ..numrun import floc
from .handles import extname, is_call

# functions under which different hosts keep different values, everywhere the same
KEEPS = ('builtins.str', 'builtins.repr', 'builtins.bytes', 'builtins.tuple', 'builtins.list', 'codecs.encode', 'binascii.hexlify')
DIGEST = ('hashlib.md5', 'hashlib.sha1', 'hashlib.sha256', 'hashlib.sha512', 'hashlib.blake2b')
HOSTS = ('socket.gethostname', 'platform.node')
VARY = {'builtins.hash': 'differs between processes (string hashes are randomised)', 'builtins.id': 'differs between processes',
        'os.getpid': 'differs between processes of one node', 'random.random': 'is random', 'numpy.random.random': 'is random',
        'uuid.uuid4': 'is random', 'uuid.uuid1': 'differs between processes of one node', 'time.time': 'differs between processes'}
LOSES = {'builtins.len': 'is the same for names of equal length', 'builtins.sum': 'is the same for names with the same letters', 'zlib.crc32': None, 'zlib.adler32': None,
         'builtins.ord': 'sees a single letter', 'builtins.sorted': 'is the same for names with the same letters', 'builtins.set': 'is the same for names with the same letters'}


class Bad(Exception):
    pass


def host(t):
    """The value identifies the host: raises Bad (with the reason) or Undecided otherwise."""
    if t.op == 'call':
        n = extname(t.args[0])
        if n in HOSTS:
            return True
        if n in VARY:
            raise Bad('%s %s' % (show(t, 4), VARY[n]))
        if LOSES.get(n):
            raise Bad('%s %s' % (show(t, 4), LOSES[n]))
        if n in KEEPS and t.args[1]:
            return host(t.args[1][0])
        if n in DIGEST and t.args[1]:
            return host(t.args[1][0])
        if n == 'builtins.int' and t.args[1]:
            x = t.args[1][0]
            base = dict(t.args[2]).get('base', t.args[1][1] if len(t.args[1]) > 1 else None)
            if base is const(16):
                y = x
                if y.op == 'mcall' and y.args[1] == 'decode':
                    y = y.args[0]
                if is_call(y, 'codecs.encode') and len(y.args[1]) == 2 and y.args[1][1] in (const('hex'), const('hex_codec')) or is_call(y, 'binascii.hexlify') or \
                        y.op == 'mcall' and y.args[1] in ('hex', 'hexdigest'):
                    return host(y.args[0] if y.op == 'mcall' else y.args[1][0])
            raise Undecided('identifier %s' % show(t, 5))
        raise Undecided('identifier %s' % show(t, 5))
    if t.op == 'mcall':
        recv, m = t.args[:2]
        if m in ('encode', 'decode', 'hex', 'hexdigest', 'digest') or m in ('lower', 'casefold') and False:
            return host(recv)
        if m == 'Get_processor_name':
            return True
        if m in ('Get_rank', 'Get_size'):
            raise Bad('%s does not identify the host' % show(t, 4))
        if extname(recv) == 'builtins.int' and m == 'from_bytes' and t.args[2]:
            return host(t.args[2][0])
        if m == 'replace' and len(t.args[2]) == 2 and t.args[2][0].op == 'const' and t.args[2][0].args[0] and host(recv):
            raise Bad('%s is the same for different names' % show(t, 4))
        if m in ('strip', 'rstrip', 'lstrip') and t.args[2] and t.args[2][0].op == 'const' and str(t.args[2][0].args[0]).strip() and host(recv):
            raise Bad('%s is the same for names that end differently' % show(t, 4))
        raise Undecided('identifier %s' % show(t, 5))
    if t.op in ('tuple', 'list'):
        bad = None
        for x in t.args[0]:
            try:
                if host(x):
                    rest = [y for y in t.args[0] if y is not x]
                    if any(y.op == 'sym' or any(z.op == 'sym' and z.args[0] == 'RANK' for z in walk(y)) for y in rest):
                        raise Bad('%s differs between processes of one node' % show(t, 4))
                    if all(y.op == 'const' for y in rest):
                        return True
            except Undecided:
                pass
        raise Undecided('identifier %s' % show(t, 5))
    if t.op == 'index' and t.args[0].op == 'mcall' and t.args[0].args[1] in ('split', 'rsplit', 'partition', 'rpartition') and t.args[0].args[2]:
        sep = t.args[0].args[2][0]
        if sep.op == 'const' and sep.args[0] not in ('.', b'.') and host(t.args[0].args[0]):
            raise Bad('%s is the same for names that differ elsewhere' % show(t, 4))
        raise Undecided('part of the host name')    # without its domain the name still tells the hosts of a cluster apart
    if t.op == 'index' and t.args[1].op in ('slice', 'const'):
        if host(t.args[0]):
            raise Bad('%s is the same for names that differ elsewhere' % show(t, 4))
    if t.op == 'bin' and t.args[0] in ('%', '//', '&') and t.args[2].op == 'const' and host(t.args[1]):
        raise Bad('%s is the same for different names' % show(t, 4))
    if t.op == 'bin' and t.args[0] in ('+', '*') and t.args[2].op == 'const' and t.args[2].args[0] not in (0, ''):
        return host(t.args[1])
    if t.op == 'sym' and t.args[0] == 'RANK':
        raise Bad('the rank does not identify the host')
    if t.op == 'const':
        raise Bad('a constant does not identify the host')
    raise Undecided('identifier %s' % show(t, 5))


def distinct(t):
    """The term whose distinct values over the processes are counted, or None."""
    if is_call(t, 'builtins.int') and len(t.args[1]) == 1:
        return distinct(t.args[1][0])
    x = None
    if is_call(t, 'builtins.len') and len(t.args[1]) == 1:
        x = t.args[1][0]
    elif t.op == 'attr' and t.args[1] == 'size':
        x = t.args[0]
        if not is_call(x, 'numpy.unique'):
            return None
    if x is None:
        return None
    if is_call(x, 'builtins.list', 'builtins.sorted', 'builtins.tuple') and len(x.args[1]) == 1:
        x = x.args[1][0]
    if is_call(x, 'builtins.set', 'builtins.frozenset', 'numpy.unique') and len(x.args[1]) == 1:
        return x.args[1][0]
    if x.op in ('mcall', 'call'):
        return ('all', x)
    return None


def gathered(x):
    f = x.args[0] if x.op == 'call' else None
    n = extname(f) if f is not None else (x.args[1] if x.op == 'mcall' else None)
    if not n:
        return None
    return n.rsplit('.', 1)[-1], (x.args[1] if x.op == 'call' else x.args[2])


SIMPLE = {
    'get_rank': {'nompi': 0, 'mpi1': 0, 'mpiN': 'RANK'},
    'get_num_procs': {'nompi': 1, 'mpi1': 1, 'mpiN': 'NPROCS'},
    'get_num_MPI_workers': {'nompi': 1, 'mpi1': 1, 'mpiN': 'NPROCS'},
    'is_distributed': {'nompi': False, 'mpi1': False, 'mpiN': True},
}


@prop('P14', 'abstract interpretation of the module in the three worlds: the value of each accessor; injectivity of the host identifier whose distinct values are counted',
      'Without MPI, with one process and with any number of processes. MPI and the host name are trusted to be right.')
def p14(c):
    c.rule('process', 'rank, process count and the distributed flag are those of the communicator')
    c.rule('node', 'the number of nodes is the number of different hosts, the same on every process')
    for w in ('nompi', 'mpi1', 'mpiN'):
        pkg = package(w)
        for n, want in SIMPLE.items():
            c.ob('%s [%s]' % (n, w), simple, c, pkg, n, w, want[w])
        c.ob('is_rank_zero [%s]' % w, zero, c, pkg, w)
        c.ob('get_num_nodes [%s]' % w, nodes, c, pkg, w)
        c.ob('get_node_ID [%s]' % w, ident, c, pkg)


def value(pkg, n):
    f = pkg.func('parallel.' + n)
    if f is None:
        raise Undecided('not found')
    r = Run(pkg)
    v = r.deep(r.call('parallel.' + n, []))
    if not r.st.alive:
        raise Undecided('always raises')
    return f, v


def known(t):
    return all(x.op in ('const', 'sym', 'bin', 'un', 'cmp', 'bool', 'not', 'phi') for x in walk(t))


def evalat(t, rank, n):
    """A term over RANK and NPROCS at given values."""
    o = t.op
    if o == 'const':
        return t.args[0]
    if o == 'sym':
        return {'RANK': rank, 'NPROCS': n}[t.args[0]]
    if o == 'not':
        return not evalat(t.args[0], rank, n)
    if o == 'phi':
        return evalat(t.args[1] if evalat(t.args[0], rank, n) else t.args[2], rank, n)
    if o == 'cmp':
        a, b = evalat(t.args[1], rank, n), evalat(t.args[2], rank, n)
        return {'==': a == b, '<': a < b, 'is': a is b}[t.args[0]]
    if o == 'bin':
        a, b = evalat(t.args[1], rank, n), evalat(t.args[2], rank, n)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b}[t.args[0]]()
    raise KeyError(o)


def over(v, want):
    """First (rank, count) at which v differs from want(rank, count)."""
    try:
        for n in range(2, 9):
            for k in range(n):
                x = evalat(v, k, n)
                if x != want(k, n):
                    return k, n, x
    except (KeyError, ZeroDivisionError, TypeError):
        raise Undecided('value %s' % show(v, 5))
    return None


def simple(c, pkg, n, w, want):
    f, v = value(pkg, n)
    if isinstance(want, str):
        if v is sym(want):
            return ''
        bad = over(v, lambda k, m: {'RANK': k, 'NPROCS': m}[want])
        if bad:
            c.violate('process', 'parallel.' + n, floc(f), 'process %d of %d is told %r' % bad)
            return False
        return ''
    if v.op != 'const':
        if w != 'mpiN':
            raise Undecided('value %s' % show(v, 5))
        bad = over(v, lambda k, m: want)
        if bad:
            c.violate('process', 'parallel.' + n, floc(f), 'process %d of %d is told %r' % bad)
            return False
        return ''
    if v.args[0] != want or isinstance(want, bool) and not isinstance(v.args[0], bool) and v.args[0] not in (0, 1):
        c.violate('process', 'parallel.' + n, floc(f), 'is %r %s' % (v.args[0], {'nompi': 'without MPI', 'mpi1': 'with one process', 'mpiN': 'with several processes'}[w]))
        return False
    return ''


def zero(c, pkg, w):
    f, v = value(pkg, 'is_rank_zero')
    if w != 'mpiN':
        if v.op != 'const':
            raise Undecided('value %s' % show(v, 5))
        if not v.args[0]:
            c.violate('process', 'parallel.is_rank_zero', floc(f), 'the only process is not rank zero')
            return False
        return ''
    bad = over(v, lambda k, m: k == 0)
    if bad:
        c.violate('process', 'parallel.is_rank_zero', floc(f), 'process %d of %d is told %r' % bad)
        return False
    return ''


def nodes(c, pkg, w):
    f, v = value(pkg, 'get_num_nodes')
    if v.op == 'const' and w != 'mpiN':
        if v.args[0] != 1 or isinstance(v.args[0], bool):
            c.violate('node', 'parallel.get_num_nodes', floc(f), 'is %r for a single process' % (v.args[0],))
            return False
        return ''
    if v.op == 'const' or v is sym('NPROCS') or v is sym('RANK'):
        c.violate('node', 'parallel.get_num_nodes', floc(f), 'is %s, whatever the nodes of the processes are' % show(v, 3))
        return False
    x = distinct(v)
    if x is None:
        raise Undecided('value %s' % show(v, 6))
    every = isinstance(x, tuple)
    g = gathered(x[1] if every else x)
    if g is None or g[0] not in ('allgather', 'gather') or not g[1]:
        raise Undecided('value %s' % show(v, 6))
    if g[0] == 'gather':
        c.violate('node', 'parallel.get_num_nodes', floc(f), 'the identifiers are gathered on one process only')
        return False
    if every:
        c.violate('node', 'parallel.get_num_nodes', floc(f), 'processes are counted, not different nodes')
        return False
    try:
        host(g[1][0])
    except Bad as e:
        c.violate('node', 'parallel.get_num_nodes', floc(f), 'nodes are told apart by something else than the host: %s' % e)
        return False
    return ''


def ident(c, pkg):
    f, v = value(pkg, 'get_node_ID')
    try:
        host(v)
    except Bad as e:
        c.violate('node', 'parallel.get_node_ID', floc(f), 'the identifier is not that of the host: %s' % e)
        return False
    return ''
