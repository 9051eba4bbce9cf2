"""S05 (process-wide state) and S08 (objects are independent): effect analysis of every function."""
import ast
from ..common import *
from ..report import prop
from .handles import internal, functions, extname, parents, dotted, enclosing

# names whose call changes process-wide state (prefix match on '.', exact otherwise)
DENY = {
    'numpy.random.seed': 'reseeds the global random generator', 'numpy.random.set_state': 'replaces the global random state',
    'random.seed': 'reseeds the global random generator', 'random.setstate': 'replaces the global random state',
    'numpy.seterr': 'changes numpy\'s error handling', 'numpy.seterrcall': 'changes numpy\'s error handling', 'numpy.setbufsize': 'changes numpy\'s buffer size',
    'numpy.set_printoptions': 'changes numpy\'s print settings', 'numpy.set_string_function': 'changes numpy\'s print settings',
    'numpy.set_numeric_ops': 'changes numpy\'s operators',
    'warnings.filterwarnings': 'changes the warning filters', 'warnings.simplefilter': 'changes the warning filters', 'warnings.resetwarnings': 'changes the warning filters',
    'os.chdir': 'changes the working directory', 'os.fchdir': 'changes the working directory', 'os.umask': 'changes the file mode mask',
    'os.putenv': 'changes the environment', 'os.unsetenv': 'changes the environment', 'os.nice': 'changes the priority', 'os.setpriority': 'changes the priority',
    'os.environ.update': 'changes the environment', 'os.environ.setdefault': 'changes the environment', 'os.environ.pop': 'changes the environment',
    'os.environ.clear': 'changes the environment', 'os.kill': 'sends a signal', 'os._exit': 'ends the process', 'os.abort': 'ends the process', 'sys.exit': 'ends the process',
    'signal.signal': 'changes a signal handler', 'signal.alarm': 'sets an alarm', 'signal.setitimer': 'sets an alarm',
    'sys.setrecursionlimit': 'changes the recursion limit', 'sys.settrace': 'installs a tracer', 'sys.setprofile': 'installs a profiler', 'sys.setswitchinterval': 'changes the interpreter',
    'sys.path.append': 'changes the import path', 'sys.path.insert': 'changes the import path', 'sys.path.extend': 'changes the import path', 'sys.path.remove': 'changes the import path',
    'gc.disable': 'switches garbage collection off', 'gc.enable': 'switches garbage collection on', 'gc.set_threshold': 'changes garbage collection', 'gc.freeze': 'changes garbage collection',
    'locale.setlocale': 'changes the locale', 'logging.basicConfig': 'configures logging', 'logging.disable': 'configures logging',
    'threading.stack_size': 'changes the stack size', 'socket.setdefaulttimeout': 'changes the socket timeout', 'atexit.register': 'registers an exit handler',
    'faulthandler.enable': 'installs fault handlers', 'decimal.setcontext': 'changes the decimal context', 'time.tzset': 'changes the time zone', 'tempfile.mkdtemp': 'creates a directory',
    'tempfile.mkstemp': 'creates a file', 'os.mkdir': 'creates a directory', 'os.makedirs': 'creates a directory', 'os.remove': 'removes a file', 'os.unlink': 'removes a file',
    'os.rmdir': 'removes a directory', 'os.removedirs': 'removes a directory', 'os.truncate': 'truncates a file', 'os.chmod': 'changes a file', 'os.system': 'runs a command',
    'os.symlink': 'creates a link', 'os.link': 'creates a link', 'shutil.rmtree': 'removes a directory', 'subprocess.run': 'runs a command', 'subprocess.call': 'runs a command',
    'subprocess.check_call': 'runs a command', 'subprocess.check_output': 'runs a command', 'subprocess.Popen': 'runs a command', 'matplotlib.use': 'changes the plotting back end',
    'os.getenv': 'reads hidden configuration', 'os.environ.get': 'reads hidden configuration', 'mpi4py.MPI.Finalize': 'shuts MPI down', 'mpi4py.MPI.COMM_WORLD.Abort': 'ends every process',
    'mpi4py.MPI.COMM_WORLD.Free': 'frees the communicator', 'mpi4py.MPI.COMM_WORLD.Set_errhandler': 'changes MPI\'s error handling',
    'multiprocessing.set_start_method': 'changes multiprocessing', 'scipy.special.seterr': 'changes scipy\'s error handling', 'resource.setrlimit': 'changes resource limits',
    'numpy.fft.set_global_backend': 'changes the back end', 'scipy.fft.set_global_backend': 'changes the back end', 'scipy.fft.set_backend': '',
}
# drawing from the global generator
RANDOM = ('numpy.random.', 'random.')
RANDOM_OK = ('numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'numpy.random.SeedSequence', 'numpy.random.PCG64', 'numpy.random.get_state',
             'random.Random', 'random.getstate', 'random.SystemRandom')
GENERATORS = ('drss', 'rss')        # documented to be random


def resolve_name(m, n, local):
    """Full dotted name of an expression through the module's imports."""
    d = dotted(n)
    if d is None:
        return None
    head, _, rest = d.partition('.')
    if head in local:
        b = local[head]
        return b + ('.' + rest if rest else '') if b else None
    v = m.env.get(head)
    if v is None:
        return 'builtins.' + d if head in dir(__builtins__ if not isinstance(__builtins__, dict) else type('x', (), __builtins__)) else None
    if v.op == 'ext':
        return v.args[0] + ('.' + rest if rest else '')
    return None


def locals_of(fn, m):
    """Names bound inside a function: to an external name where simply imported or aliased, else None."""
    out = {}
    if fn is None:
        return out
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out[x.arg] = None
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Import):
                for x in n.names:
                    out[x.asname or x.name.split('.')[0]] = x.name if x.asname else x.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for x in n.names:
                    out[x.asname or x.name] = '%s.%s' % (n.module, x.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = n.targets[0].id
                r = resolve_name(m, n.value, {i: j for i, j in out.items() if i != k}) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                out[k] = r if k not in out or out[k] == r else None
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.setdefault(n.id, None)
    return out


def sites(pkg):
    """(module, function node or None, qualified name, node, parents) of every call, attribute and store in the package."""
    for m in sorted(pkg.modules.values(), key=lambda m: m.name):
        par = parents(m.tree)
        loc = {}
        for n in ast.walk(m.tree):
            fn = enclosing(n, par, (ast.FunctionDef, ast.AsyncFunctionDef))
            if fn not in loc:
                chain, g = [], fn
                while g is not None:
                    chain.append(g)
                    g = enclosing(g, par, (ast.FunctionDef, ast.AsyncFunctionDef))
                loc[fn] = {}
                for g in reversed(chain):
                    loc[fn].update(locals_of(g, m))
            yield m, fn, loc[fn], n, par


def qual(m, fn, par):
    if fn is None:
        return m.name
    c = enclosing(fn, par, (ast.ClassDef,))
    return '%s.%s%s' % (m.name, c.name + '.' if c is not None else '', fn.name)


def restored(n, par, m, loc):
    """Is the effect undone: inside a restoring with block, or a finally clause follows?"""
    x = n
    while x in par:
        x = par[x]
        if isinstance(x, ast.With):
            for it in x.items:
                e = it.context_expr
                d = dotted(e.func) if isinstance(e, ast.Call) else dotted(e)
                if d and d.split('.')[-1] in ('catch_warnings', 'errstate', 'printoptions', 'preserved', 'chdir', 'redirect_stdout'):
                    return 'with'
        if isinstance(x, ast.Try) and x.finalbody:
            return 'finally'
        if isinstance(x, (ast.FunctionDef, ast.Module)):
            if any(isinstance(y, ast.Try) and y.finalbody for y in ast.walk(x)):
                return 'finally'
            return None
    return None


@prop('S05', 'effect analysis: every call, assignment and attribute access of every module and function is resolved through imports and aliases and matched against the process-wide effects of the interpreter, numpy, scipy, MPI and the operating system; call-graph reachability for random draws',
      'Every statement of the package, import-time code included. User callbacks and the effects inside numpy and scipy calls that are not listed are outside.')
def s05(c):
    c.rule('effect', 'no call changes process-wide state (random seeds, numpy or warning settings, directory, environment, signals, files not asked for)')
    c.rule('assign', 'no attribute of an imported module, sys or os.environ is assigned')
    c.rule('config', 'no environment variable is read')
    c.rule('random', 'the global random generator is drawn from only in drss and rss, which are documented to be random')
    pkg = package('nompi')
    for m in sorted(pkg.modules):
        c.ob('module %s' % m, s05_module, c, pkg, m)
    c.ob('random draws', draws, c, pkg)


def s05_module(c, pkg, name):
    bad = None
    for m, fn, loc, n, par in sites(pkg):
        if m.name != name:
            continue
        where_ = '%s:%d' % (m.path, getattr(n, 'lineno', 0))
        if isinstance(n, ast.Call):
            c.note('calls')
            q = resolve_name(m, n.func, loc)
            if q is None:
                continue
            if DENY.get(q):
                w = restored(n, par, m, loc)
                if w == 'with' and q.startswith(('warnings.', 'numpy.seterr', 'numpy.set_print')):
                    continue
                if w:
                    bad = 'effect of %s, perhaps undone, at %s' % (q, where_)
                    continue
                c.violate('config' if 'reads' in DENY[q] else 'effect', qual(m, fn, par), where_, '%s %s' % (q, DENY[q]))
            if q == 'builtins.setattr' and n.args:
                b = resolve_name(m, n.args[0], loc)
                if b and not b.startswith('builtins.'):
                    c.violate('assign', qual(m, fn, par), where_, 'setattr on %s' % b)
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            c.note('attribute and item stores')
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            q = resolve_name(m, b, loc)
            if q and not q.startswith('builtins.'):
                if restored(n, par, m, loc):
                    bad = 'assignment to %s, perhaps undone, at %s' % (ast.unparse(n), where_)
                    continue
                c.violate('assign', qual(m, fn, par), where_, 'assigns %s of %s' % (ast.unparse(n), q))
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            if resolve_name(m, n.value, loc) == 'os.environ':
                c.violate('config', qual(m, fn, par), where_, 'reads an environment variable')
    if bad:
        raise Undecided(bad)
    return ''


def draws(c, pkg):
    """Functions that draw from the global generator are reached only from drss and rss."""
    # names called by each function (over-approximate call graph by simple name)
    drawing, callers = {}, {}
    for m, fn, loc, n, par in sites(pkg):
        if not isinstance(n, ast.Call):
            continue
        q = resolve_name(m, n.func, loc)
        if q and q.startswith(RANDOM) and q not in RANDOM_OK and q not in DENY:
            drawing.setdefault(qual(m, fn, par), []).append(('%s:%d' % (m.path, n.lineno), q))
            c.note('random draws')
        d = dotted(n.func)
        if d:
            callers.setdefault(d.split('.')[-1], set()).add(qual(m, fn, par))
    for q, ls in sorted(drawing.items()):
        if q in pkg.modules:
            c.violate('random', q, ls[0][0], 'importing the package draws from the global random generator (%s)' % ls[0][1])
            return False
        todo, seen = [q], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            simple = x.split('.')[-1]
            if simple in GENERATORS and len(x.split('.')) == 2:
                continue
            cs = callers.get(simple, set())
            if not cs or not simple.startswith('_') and (len(x.split('.')) == 3 or x in {v.args[0].qual for v in exported(pkg).values() if v.op == 'fn'}):
                c.violate('random', x, ls[0][0], 'draws from (and so changes) the global random generator (%s), which only drss and rss are documented to do' % ls[0][1])
                return False
            todo += list(cs)
    return '%d drawing functions' % len(drawing)


# ------------------------------------------------------------------------------------------- S08
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = ('list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'array', 'zeros', 'ones', 'empty', 'eye')
MUTATORS = ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill',
            'resize', 'appendleft', 'popleft', 'partition', 'itemset')
CACHE = ('cached_base_vec_handle', 'cached_base_vec')


def is_mutable(e, pkg, m):
    if isinstance(e, MUTABLE):
        return True
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        if d and d.split('.')[-1] in MAKERS:
            return True
        v = m.env.get(d.split('.')[0]) if d else None
        if v is not None and (v.op == 'class' or v.op == 'fn'):
            return True
    return False


def base_name(n):
    """Innermost expression of a chain of subscripts and attributes."""
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n


def mutations(fn, match):
    """Nodes inside fn that modify an object named by an expression for which match(expr) holds."""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            while True:
                if match(b):
                    out.append(n)
                    break
                if isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                else:
                    break
        elif isinstance(n, ast.AugAssign) and match(n.target):
            out.append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if match(b) or match(n.func.value):
                out.append(n)
    return out


@prop('S08', 'syntactic escape and effect analysis of mutable defaults, class attributes and module variables, plus the class- and module-state writes found by abstract interpretation of every function',
      'Every class and function of the package. Objects the caller itself shares between two objects are outside.')
def s08(c):
    c.rule('default', 'no mutable default argument is modified, or kept in an object that modifies it')
    c.rule('class-state', 'no class attribute is written or modified in place through an object (the documented base-vector cache excepted)')
    c.rule('module-state', 'no module variable is written or modified in place by a function')
    c.rule('memo', 'no function keeps results between calls')
    pkg = package('nompi')
    for f in functions(pkg):
        c.note('functions')
        c.ob('%s defaults' % f.qual, defaults, c, pkg, f)
        c.ob('%s module and class state' % f.qual, state, c, pkg, f)
    for m in sorted(pkg.modules.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                c.note('classes')
                c.ob('%s.%s attributes' % (m.name, n.name), class_attrs, c, pkg, m, n)


def defaults(c, pkg, f):
    a = f.node.args
    if isinstance(f.node, ast.Lambda):
        return ''
    pos = a.posonlyargs + a.args
    prs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for x, d in prs:
        c.note('default arguments')
        if not is_mutable(d, pkg, f.module):
            continue
        loc = '%s:%d' % (f.module.path, d.lineno)
        isp = lambda e, p=x.arg: isinstance(e, ast.Name) and e.id == p
        rebound = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == x.arg and isinstance(n.ctx, ast.Store)]
        rebound = [n for n in rebound if not any(isinstance(g, ast.AugAssign) and g.target is n for g in ast.walk(f.node))]
        if rebound:
            raise Undecided('mutable default %s, rebound' % x.arg)
        ms = mutations(f.node, isp)
        if ms:
            c.violate('default', f.qual, loc, 'the default of %s is one object shared by all calls, and is modified at line %d' % (x.arg, ms[0].lineno))
            return False
        kept = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isp(n.value) and any(isinstance(t, ast.Attribute) for t in n.targets)]
        for n in kept:
            t = [t for t in n.targets if isinstance(t, ast.Attribute)][0]
            if f.cls is None:
                raise Undecided('default kept')
            for g in methods(f.cls).values():
                ms = mutations(g.node, lambda e: isinstance(e, ast.Attribute) and e.attr == t.attr and isinstance(e.value, ast.Name) and e.value.id == 'self')
                if ms:
                    c.violate('default', f.qual, loc, 'the default of %s is one object shared by every %s, and %s modifies it (line %d)' % (
                        x.arg, f.cls.name, g.name, ms[0].lineno))
                    return False
            # aliases through a local variable
            if any(isinstance(g, ast.Assign) and isinstance(g.value, ast.Attribute) and g.value.attr == t.attr for h in methods(f.cls).values() for g in ast.walk(h.node)):
                raise Undecided('default kept and aliased')
        if any(isinstance(n, ast.Return) and n.value is not None and isp(n.value) for n in ast.walk(f.node)):
            c.violate('default', f.qual, loc, 'the shared default of %s is handed to the caller' % x.arg)
            return False
    return ''


def module_vars(m):
    """Module-level names assigned by statements (not imports, functions or classes)."""
    out = {}

    def block(b):
        for s in b:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            out[x.id] = s
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)) and isinstance(s.target, ast.Name):
                out[s.target.id] = s
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for k in ('body', 'orelse', 'finalbody'):
                    block(getattr(s, k, []) or [])
                for h in getattr(s, 'handlers', []) or []:
                    block(h.body)
    block(m.tree.body)
    return out


def state(c, pkg, f):
    m = f.module
    if isinstance(f.node, ast.Lambda):
        return ''
    # global declarations
    gl = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id in gl and isinstance(n.ctx, (ast.Store, ast.Del)):
            c.violate('module-state', f.qual, '%s:%d' % (m.path, n.lineno), 'writes the module variable %s' % n.id)
            return False
    loc = locals_of(f.node, m)
    mv = module_vars(m)
    ms = mutations(f.node, lambda e: isinstance(e, ast.Name) and e.id in mv and e.id not in loc)
    if ms:
        c.violate('module-state', f.qual, '%s:%d' % (m.path, ms[0].lineno), 'modifies the module variable %s' % base_name(ms[0].func if isinstance(ms[0], ast.Call) else ms[0].target if isinstance(ms[0], ast.AugAssign) else ms[0]).id)
        return False
    # attributes of functions and of package modules
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id not in loc:
            v = m.env.get(n.value.id)
            if v is not None and v.op == 'fn':
                c.violate('memo', f.qual, '%s:%d' % (m.path, n.lineno), 'stores %s on the function %s: it persists between calls' % (n.attr, n.value.id))
                return False
            if v is not None and v.op in ('module', 'mod'):
                c.violate('module-state', f.qual, '%s:%d' % (m.path, n.lineno), 'writes the module variable %s.%s' % (n.value.id, n.attr))
                return False
    for d in getattr(f.node, 'decorator_list', []):
        x = dotted(d.func if isinstance(d, ast.Call) else d)
        if x and x.split('.')[-1] in ('lru_cache', 'cache', 'memoize', 'cached'):
            rets = [n for n in ast.walk(f.node) if isinstance(n, ast.Return)]
            raise Undecided('results are kept between calls (%s); whether they are shared mutable objects is not known' % x)
    # abstract interpretation: class and module state
    r = run_any(pkg, f)
    for e in r.events:
        if e.kind == 'classset':
            if e.d['name'] in CACHE and e.d['base'].op == 'class' and e.d['base'].args[0].qual == 'vectors.VecHandle':
                c.note('writes of the documented cache')
                continue
            if e.stack and e.stack[-1][0] != f.qual:
                continue
            if e.d['name'] in CACHE and (f.cls is not None and any(k.qual == 'vectors.VecHandle' for k in f.cls.mro()) or internal(pkg, f)):
                raise Undecided('the cache is written on another class')
            c.violate('class-state', f.qual, e.loc, 'writes the class attribute %s, shared by all objects of the class' % e.d['name'])
            return False
        if e.kind == 'gstore' and (not e.stack or e.stack[-1][0] == f.qual):
            c.violate('module-state', f.qual, e.loc, 'writes the module variable %s' % e.d['name'])
            return False
    # type(self).x = ..., self.__class__.x = ...
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            if (isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'type') or (isinstance(b, ast.Attribute) and b.attr == '__class__') or \
                    (isinstance(b, ast.Name) and b.id not in loc and m.env.get(b.id) is not None and m.env[b.id].op == 'class'):
                if n.attr in CACHE and (f.cls is not None and any(k.qual == 'vectors.VecHandle' for k in f.cls.mro()) or
                                        isinstance(b, ast.Name) and m.env[b.id].args[0].qual == 'vectors.VecHandle' or internal(pkg, f)):
                    continue
                c.violate('class-state', f.qual, '%s:%d' % (m.path, n.lineno), 'writes the class attribute %s, shared by all objects of the class' % n.attr)
                return False
    return ''


def class_attrs(c, pkg, m, cd):
    cls = m.env.get(cd.name)
    if cls is None or cls.op != 'class' or cls.args[0].node is not cd:
        raise Undecided('class not found')
    cls = cls.args[0]
    for s in cd.body:
        tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []
        for t in tg:
            if not isinstance(t, ast.Name):
                continue
            c.note('class attributes')
            if not is_mutable(s.value, pkg, m):
                continue
            name = t.id
            subs = [k.args[0] for mm in pkg.modules.values() for k in mm.env.values() if k.op == 'class' and cls in k.args[0].mro()]
            for k in subs or [cls]:
                ini = k.lookup('__init__')[0]
                own = False
                if ini is not None and ini.op == 'fn':
                    own = any(isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == 'self'
                                                                for x in n.targets) for n in ini.args[0].node.body)
                if own:
                    continue
                for g in methods(k).values():
                    ms = mutations(g.node, lambda e: isinstance(e, ast.Attribute) and e.attr == name)
                    if ms:
                        c.violate('class-state', '%s.%s' % (cls.qual, name), '%s:%d' % (m.path, ms[0].lineno), '%s modifies the class attribute %s, shared by all objects' % (g.qual, name))
                        return False
    return ''
