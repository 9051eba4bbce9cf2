"""Gated value graph construction: abstract interpretation of the package's AST.

Every function is interpreted once over hash-consed terms: both sides of an undecided branch are
interpreted and merged with gated phi nodes, loops are summarised with mu (loop head) / loopout
(loop exit) terms, calls to functions of the package are inlined (or kept as named primitives),
and every externally visible action is logged as an event with its guards and enclosing loops.
No code of the package is imported or executed."""
import ast
import builtins as _bi
import os
from .terms import *
from . import terms as _tm

MAXDEPTH = 24
MUTATING = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'fill', 'update',
            'setdefault', 'add', 'discard', 'resize', 'put', 'itemset', 'setflags', 'partition',
            'popitem', 'byteswap', '__setitem__', '__iadd__', '__imul__', 'setfield'}


class Module(object):
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src)
        self.qual = name
        self.env = None

    def __repr__(self):
        return '<module %s>' % self.name


class Func(object):
    def __init__(self, module, qual, node, cls=None, closure=None):
        self.module, self.qual, self.node, self.cls, self.closure = module, qual, node, cls, closure
        self.name = getattr(node, 'name', '<lambda>')
        self.is_gen = False
        self.kind = 'function'
        if not isinstance(node, ast.Lambda):
            for n in _own_nodes(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
            for d in node.decorator_list:
                nm = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
                if nm in ('staticmethod', 'classmethod', 'property'):
                    self.kind = nm
                elif nm in ('setter', 'getter', 'deleter'):
                    self.kind = 'property_' + nm

    def __repr__(self):
        return '<fn %s>' % self.qual

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class ClassInfo(object):
    def __init__(self, module, qual, node):
        self.module, self.qual, self.node = module, qual, node
        self.name = node.name
        self.bases = []
        self.ns = {}

    def __repr__(self):
        return '<class %s>' % self.qual

    def mro(self):
        out = [self]
        for b in self.bases:
            if b.op == 'class':
                for c in b.args[0].mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name, after=None):
        mro = self.mro()
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if b.op != 'class':
                    out.append(b)
        return out


def _own_nodes(fnode):
    stack = list(fnode.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Event(object):
    __slots__ = ('kind', 'seq', 'pc', 'loops', 'stack', 'loc', 'd')

    def __init__(self, kind, seq, pc, loops, stack, loc, d):
        self.kind, self.seq, self.pc, self.loops, self.stack, self.loc, self.d = kind, seq, pc, loops, stack, loc, d

    def __repr__(self):
        return 'E%d %s@%s %s' % (self.seq, self.kind, self.loc, {k: show(v) if isinstance(v, T) else v for k, v in self.d.items()})


class State(object):
    __slots__ = ('envs', 'heap', 'pc', 'alive')

    def __init__(self):
        self.envs, self.heap, self.pc, self.alive = {}, {}, (), True

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.pc, s.alive = self.pc, self.alive
        return s

    def set_from(self, o):
        self.envs, self.heap, self.pc, self.alive = o.envs, o.heap, o.pc, o.alive


class Loop(object):
    def __init__(self, lid, kind, count, loc, stack, pc, loops):
        self.lid, self.kind, self.count, self.loc, self.stack, self.pc, self.outer = lid, kind, count, loc, stack, pc, loops
        self.init, self.back, self.breaks, self.continues, self.returns = {}, {}, [], [], []
        self.cond = None


class Frame(object):
    def __init__(self, fid, func, caller):
        self.fid, self.func, self.caller = fid, func, caller
        self.returns = []
        self.globals_ = set()
        self.nonlocals_ = set()
        self.yields = None
        self.base_pc = ()


class Package(object):
    """All modules of the package, parsed; module-level environments evaluated abstractly."""

    def __init__(self, root, name='modred', world=None):
        """world: None      module globals stay symbolic
                  'nompi'   mpi4py cannot be imported
                  'mpi1'    mpi4py present, one process
                  'mpiN'    mpi4py present, NPROCS >= 2 processes, this one has rank RANK"""
        self.root, self.name, self.world = root, name, world
        self.modules = {}
        self.errors = []
        self.globdefs = {}
        pk = os.path.join(root, name)
        for f in sorted(os.listdir(pk)):
            if f.endswith('.py'):
                p = os.path.join(pk, f)
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                m = f[:-3]
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        self.modules[m] = Module(m, os.path.join(name, f), src)
                except SyntaxError as e:
                    self.errors.append('%s: %s' % (f, e))
        # sub-packages other than tests/examples (a refactoring may add one)
        self.funcs = {}
        self.classes = {}
        self._loading = set()
        for m in list(self.modules):
            self.load(m)

    def load(self, m):
        mod = self.modules.get(m)
        if mod is None:
            return None
        if mod.env is not None:
            return mod
        if m in self._loading:
            return mod
        self._loading.add(m)
        mod.env = {}
        an = Analysis(self, module_level=True)
        st = State()
        fr = Frame(('mod', m), None, None)
        st.envs[fr.fid] = mod.env
        an.cur_module = mod
        an.frames = [fr]
        an.exec_block(mod.tree.body, st, fr, mod)
        env = st.envs[fr.fid]
        final = {}
        for k, v in env.items():
            d = an.deep(v, st)
            g = 'glob', '%s.%s' % (m, k)
            if d.op == 'phi':
                # try/except ImportError imports: one arm undefined
                arms = [a for a in d.args[1:] if a is not UNDEF]
                if len(arms) == 1 and arms[0].op in ('ext', 'fn', 'class', 'module'):
                    d = arms[0]
            if self.world is not None or d.op in ('fn', 'class', 'module', 'ext', 'const', 'ntclass', 'partial') or _plain(d):
                final[k] = d
            else:
                t = mk(*g)
                self.globdefs[t] = d
                final[k] = t
        mod.env = final
        mod.events = an.events
        return mod

    def func(self, qual):
        """Resolve 'module.func' or 'module.Class.method' (following re-exports)."""
        parts = qual.split('.')
        mod = self.modules.get(parts[0])
        if mod is None:
            return None
        v = mod.env.get(parts[1])
        if v is None:
            return None
        if len(parts) == 2:
            return v.args[0] if v.op == 'fn' else None
        if v.op != 'class':
            return None
        f, _ = v.args[0].lookup(parts[2])
        return f.args[0] if f is not None and f.op == 'fn' else None

    def cls(self, qual):
        m, c = qual.split('.')
        mod = self.modules.get(m)
        v = mod.env.get(c) if mod else None
        return v.args[0] if v is not None and v.op == 'class' else None

    def all_funcs(self):
        out = []
        for m in self.modules.values():
            for v in m.env.values():
                if v.op == 'fn' and v.args[0].module is m:
                    out.append(v.args[0])
                elif v.op == 'class' and v.args[0].module is m:
                    for w in v.args[0].ns.values():
                        if w.op == 'fn':
                            out.append(w.args[0])
        return out


NPROCS, RANK = sym('NPROCS'), sym('RANK')


def world_decide(world, c):
    """Facts about the process set: NPROCS >= 2 and 0 <= RANK < NPROCS."""
    if c.op == 'exc':
        if any('ImportError' in t or 'ModuleNotFound' in t for t in c.args[1]) and len(c.args) > 2 and 'mpi4py' in c.args[2]:
            return world == 'nompi'
        return None
    if c.op == 'cmp' and c.args[0] in ('<', '=='):
        op, a, b = c.args
        if op == '<':
            if a is RANK and b is NPROCS:
                return True
            if b is RANK and is_num(a) and a.args[0] < 0:
                return True
            if a is RANK and is_num(b) and b.args[0] <= 0:
                return False
            if b is NPROCS and is_num(a) and a.args[0] < 2:
                return True
            if a is NPROCS and is_num(b) and b.args[0] <= 2:
                return False
        else:
            for x, y in ((a, b), (b, a)):
                if x is NPROCS and is_num(y) and y.args[0] < 2:
                    return False
                if x is RANK and (y is NPROCS or (is_num(y) and y.args[0] < 0)):
                    return False
    return None


def _plain(d):
    if d.op == 'const':
        return True
    if d.op in ('tuple', 'list', 'set'):
        return all(_plain(x) for x in d.args[0])
    if d.op == 'dict':
        return all(_plain(k) and _plain(v) for k, v in d.args[0])
    return False


class Undefined(Exception):
    def __init__(self, name):
        self.name = name


BUILTINS = set(dir(_bi))


class Analysis(object):
    def __init__(self, pkg, assume=None, prims=None, module_level=False, open_attrs=True):
        self.pkg = pkg
        self.assume_cb = assume
        self.prims = prims or {}
        self.impure = set()         # callables whose every call gives a new value
        self.nimpure = 0
        self.module_level = module_level
        self.events = []
        self.loops = {}
        self.counter = 0
        self.frames = []
        self.loopstack = ()
        self.callstack = ()
        self.discover = 0
        self.objcls = {}
        self.objopen = {}
        self.cur_module = None
        self.undefs = []
        self.undefhit = set()
        self.imprecise = []

    # ---------------------------------------------------------------- utils
    def fresh(self):
        self.counter += 1
        return self.counter

    def loc(self, node):
        m = self.cur_module
        return '%s:%d' % (m.path if m else '?', getattr(node, 'lineno', 0))

    trace = False

    def ev(self, kind, st, node, **d):
        if self.discover:
            return None
        e = Event(kind, len(self.events), st.pc, self.loopstack, self.callstack, self.loc(node), d)
        self.events.append(e)
        return e

    def newref(self, content, st):
        r = mk('ref', self.fresh())
        st.heap[('cont', r.args[0])] = content
        return r

    def deref(self, v, st):
        n = 0
        while v.op == 'ref' and n < 50:
            v = st.heap.get(('cont', v.args[0]), mk('top', 'lostref'))
            n += 1
        return v

    def deep(self, v, st, depth=0):
        v = self.deref(v, st)
        if depth > 12:
            return v
        if v.op in ('tuple', 'list', 'set', 'ntuple', 'listcat', 'phi', 'comp', 'append') and _hasref(v):
            return rebuild(v.op, tuple(self._deepany(a, st, depth + 1) for a in v.args))
        if v.op == 'dict' and _hasref(v):
            return mk('dict', tuple((self.deep(k, st, depth + 1), self.deep(x, st, depth + 1)) for k, x in v.args[0]))
        if v.op == 'bound' or v.op == 'partial':
            return v
        return v

    def _deepany(self, a, st, depth):
        if isinstance(a, T):
            return self.deep(a, st, depth)
        if isinstance(a, tuple):
            return tuple(self._deepany(x, st, depth) for x in a)
        return a

    def sel(self, v, st):
        """Pick the arm of a phi the current path condition decides."""
        n = 0
        while v.op == 'phi' and n < 20:
            d = self.decide(v.args[0], st, cheap=True)
            if d is None:
                return v
            v = v.args[1] if d else v.args[2]
            n += 1
        return v

    def decide(self, c, st, cheap=False):
        if c.op == 'const':
            return bool(c.args[0])
        if c.op == 'not':
            d = self.decide(c.args[0], st, cheap)
            return None if d is None else (not d)
        for (t, pol) in st.pc:
            if t is c:
                return pol
        if c.op == 'bool':
            ds = [self.decide(x, st, cheap) for x in c.args[1]]
            if c.args[0] == 'and':
                if any(d is False for d in ds):
                    return False
                if all(d is True for d in ds):
                    return True
            else:
                if any(d is True for d in ds):
                    return True
                if all(d is False for d in ds):
                    return False
        if c.op in ('tuple', 'list', 'set', 'dict'):
            return len(c.args[0]) > 0
        if c.op in ('fn', 'class', 'module', 'obj', 'ntuple', 'bound'):
            return True
        if self.assume_cb:
            d = self.assume_cb(c)
            if d is not None:
                return d
        if self.pkg.world is not None:
            return world_decide(self.pkg.world, c)
        return None

    # ---------------------------------------------------------------- blocks
    def exec_block(self, stmts, st, fr, mod):
        for s in stmts:
            if not st.alive:
                return
            self.exec_stmt(s, st, fr, mod)

    def exec_stmt(self, s, st, fr, mod):
        self.cur_module = mod
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.imprecise.append('%s unhandled statement %s' % (self.loc(s), type(s).__name__))
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.setname(n.id, mk('top', 'stmt'), st, fr)
            return
        m(s, st, fr, mod)

    def s_Pass(self, s, st, fr, mod):
        pass

    def s_Expr(self, s, st, fr, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st, fr, mod)

    def s_Global(self, s, st, fr, mod):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, st, fr, mod):
        fr.nonlocals_.update(s.names)

    def s_Import(self, s, st, fr, mod):
        for a in s.names:
            nm = a.name
            v = self.import_module(nm)
            if a.asname:
                self.setname(a.asname, v, st, fr)
            else:
                topn = nm.split('.')[0]
                self.setname(topn, self.import_module(topn), st, fr)

    def import_module(self, nm):
        parts = nm.split('.')
        if parts[0] == self.pkg.name:
            if len(parts) == 1:
                return mk('ext', 'PKG')
            if parts[1] in self.pkg.modules:
                return mk('module', self.pkg.modules[parts[1]])
        return ext(nm)

    def s_ImportFrom(self, s, st, fr, mod):
        base = None
        if s.level:
            if s.module:
                base = s.module.split('.')[0]
                base = base if base in self.pkg.modules else None
                isroot = False
            else:
                isroot = True
        else:
            isroot = s.module == self.pkg.name
            if s.module and s.module.startswith(self.pkg.name + '.'):
                base = s.module.split('.')[1]
                base = base if base in self.pkg.modules else None
        for a in s.names:
            if base:
                m = self.pkg.load(base)
                if a.name == '*':
                    for k, v in m.env.items():
                        if not k.startswith('_'):
                            self.setname(k, v, st, fr)
                    continue
                v = m.env.get(a.name)
                if v is None:
                    self.undefs.append((self.loc(s), 'name %s not found in module %s' % (a.name, base)))
                    v = mk('top', 'import')
            elif isroot:
                if a.name in self.pkg.modules:
                    v = mk('module', self.pkg.modules[a.name])
                else:
                    v = ext('PKG.' + a.name)
            else:
                v = ext((s.module or '') + '.' + a.name)
            self.setname(a.asname or a.name, v, st, fr)

    def s_FunctionDef(self, s, st, fr, mod):
        qual = (fr.func.qual + '.' if fr.func else mod.name + '.') + s.name
        f = Func(mod, qual, s, None, fr.fid if fr.func else None)
        v = mk('fn', f)
        if f.closure:
            v = mk('closure', f)
        for d in reversed(s.decorator_list):
            nm = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
            if nm in ('staticmethod', 'classmethod', 'property', 'wraps'):
                continue
            if isinstance(d, ast.Call) and (getattr(d.func, 'attr', '') == 'wraps' or getattr(d.func, 'id', '') == 'wraps'):
                continue
            dv = self.eval(d, st, fr, mod)
            v = self.call(dv, [v], [], st, fr, mod, d)
        self.setname(s.name, v, st, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr, mod):
        qual = (fr.func.qual + '.' if fr.func else mod.name + '.') + s.name
        c = ClassInfo(mod, qual, s)
        for b in s.bases:
            try:
                c.bases.append(self.deref(self.eval(b, st, fr, mod), st))
            except Undefined:
                c.bases.append(mk('top', 'base'))
        sub = Frame(('cls', self.fresh()), fr.func, fr)
        sub.is_class = True
        st.envs[sub.fid] = dict()
        # class bodies see the enclosing frame
        env = st.envs[sub.fid]
        env['__parent__'] = mk('frameid', fr.fid)
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                f = Func(mod, qual + '.' + b.name, b, c, fr.fid if fr.func else None)
                v = mk('fn', f)
                if f.kind == 'function':
                    for d in reversed(b.decorator_list):
                        if isinstance(d, ast.Call) and (getattr(d.func, 'attr', '') == 'wraps'):
                            continue
                        try:
                            dv = self.eval(d, st, sub, mod)
                            v = self.deref(self.call(dv, [v], [], st, sub, mod, d), st)
                        except Undefined:
                            v = mk('top', 'decorator')
                if f.kind.startswith('property_') and f.kind != 'property':
                    env['__%s__%s' % (f.kind, b.name)] = v
                else:
                    env[b.name] = v
            else:
                self.exec_stmt(b, st, sub, mod)
        for k, v in st.envs[sub.fid].items():
            if k != '__parent__':
                c.ns[k] = self.deep(v, st)
        del st.envs[sub.fid]
        self.setname(s.name, mk('class', c), st, fr)

    def s_Return(self, s, st, fr, mod):
        v = self.eval(s.value, st, fr, mod) if s.value is not None else NONE
        if not st.alive:
            return
        v = self.sel(v, st)
        self.ev('return', st, s, value=v, func=fr.func.qual if fr.func else '')
        st.alive = False
        fr.returns.append((st.pc, v, st.copy(), self.loopstack))

    def s_Raise(self, s, st, fr, mod):
        v = self.deep(self.eval(s.exc, st, fr, mod), st) if s.exc is not None else mk('reraise')
        self.ev('raise', st, s, exc=v, func=fr.func.qual if fr.func else '')
        st.alive = False

    def s_Assert(self, s, st, fr, mod):
        c = self.cond(s.test, st, fr, mod)
        self.ev('assert', st, s, cond=c)
        d = self.decide(c, st)
        if d is None:
            st.pc = st.pc + ((c, True),)

    def s_Delete(self, s, st, fr, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                v = st.envs[fr.fid].get(t.id)
                self.ev('del', st, s, name=t.id, value=v if v is not None else UNDEF)
                if v is not None:
                    st.envs[fr.fid][t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                b = self.deref(self.eval(t.value, st, fr, mod), st)
                if b.op == 'obj':
                    st.heap[('attr', b.args[0], t.attr)] = UNDEF
                self.ev('delattr', st, s, base=b, name=t.attr)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr, mod)
                i = self.deep(self.eval(t.slice, st, fr, mod), st)
                old = self.deep(b, st)
                self.ev('store', st, s, target=old, index=i, value=UNDEF, op='del')
                self.setcontent(b, mk('delitem', old, i), st)

    def s_Assign(self, s, st, fr, mod):
        v = self.eval(s.value, st, fr, mod)
        for t in s.targets:
            self.assign(t, v, st, fr, mod, s)

    def s_AnnAssign(self, s, st, fr, mod):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr, mod), st, fr, mod, s)

    def s_AugAssign(self, s, st, fr, mod):
        op = _OPS.get(type(s.op), '?')
        tgt = s.target
        ld = _as_load(tgt)
        old = self.eval(ld, st, fr, mod)
        rhs = self.eval(s.value, st, fr, mod)
        oldc, rc = self.deep(self.sel(old, st), st), self.deep(rhs, st)
        if op == '+' and oldc.op in ('list', 'append', 'listcat', 'comp'):
            new = mk('listcat', oldc, rc)
        else:
            new = self.binop(op, oldc, rc)
        self.ev('aug', st, s, target=oldc, op=op, value=rc, name=ast.unparse(tgt))
        if isinstance(tgt, ast.Subscript):
            base = self.eval(_as_load(tgt.value), st, fr, mod)
            idx = self.deep(self.eval(tgt.slice, st, fr, mod), st)
            bc = self.deep(base, st)
            self.ev('store', st, s, target=bc, index=idx, value=new, op='aug', rhs=rc, aug=op)
            self.store(base, bc, idx, new, st)
            return
        if old.op == 'ref' and _mutable_kind(oldc):
            self.setcontent(old, new, st)
            return
        self.assign(tgt, new, st, fr, mod, s)

    def setcontent(self, ref, content, st):
        if ref.op == 'ref':
            # follow to the last ref
            r = ref
            while True:
                nxt = st.heap.get(('cont', r.args[0]))
                if nxt is not None and nxt.op == 'ref':
                    r = nxt
                else:
                    break
            st.heap[('cont', r.args[0])] = content

    def store(self, base, bc, idx, val, st):
        if bc.op in ('list',) and is_num(idx) and isinstance(idx.args[0], int) and -len(bc.args[0]) <= idx.args[0] < len(bc.args[0]):
            l = list(bc.args[0])
            l[idx.args[0]] = val
            new = mk('list', tuple(l))
        elif bc.op == 'dict':
            items = [(k, v) for k, v in bc.args[0] if k is not idx] + [(idx, val)]
            new = mk('dict', tuple(items))
        else:
            new = mk('store', bc, idx, val)
        if base.op == 'ref':
            self.setcontent(base, new, st)

    def assign(self, t, v, st, fr, mod, s):
        if isinstance(t, ast.Name):
            self.setname(t.id, self.wrap(v, st), st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vd = self.sel(self.deref(v, st), st)
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, mk('top', 'star'), st, fr, mod, s)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.index(vd, const(i), st), st, fr, mod, s)
        elif isinstance(t, ast.Attribute):
            b = self.sel(self.deref(self.eval(t.value, st, fr, mod), st), st)
            w = self.wrap(v, st)
            self.setattr(b, t.attr, w, st, fr, mod, s)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, fr, mod)
            idx = self.deep(self.eval(t.slice, st, fr, mod), st)
            bc = self.deep(base, st)
            val = self.deep(v, st)
            self.ev('store', st, s, target=bc, index=idx, value=val, op='=')
            if base.op == 'ref' or bc.op not in ('const',):
                self.store(base, bc, idx, val, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, mk('top', 'star'), st, fr, mod, s)

    def setattr(self, b, name, w, st, fr, mod, node):
        if b.op == 'obj':
            oid = b.args[0]
            cls = self.objcls.get(oid)
            if cls is not None:
                f, _ = cls.lookup('__property_setter__' + name)
                if f is not None:
                    self.invoke(f.args[0], [b, w], [], st, mod, node)
                    return
            self.ev('attrset', st, node, base=b, name=name, value=self.deep(w, st), cls=cls)
            st.heap[('attr', oid, name)] = w
        elif b.op == 'class':
            self.ev('classset', st, node, base=b, name=name, value=self.deep(w, st))
            st.heap[('cattr', b.args[0].qual, name)] = w
        elif b.op == 'module':
            self.ev('gstore', st, node, name='%s.%s' % (b.args[0].name, name), value=self.deep(w, st))
        elif b.op == 'phi':
            self.ev('attrset', st, node, base=b, name=name, value=self.deep(w, st), cls=None)
            for arm, pol in ((b.args[1], True), (b.args[2], False)):
                arm = self.deref(arm, st)
                if arm.op == 'obj':
                    k = ('attr', arm.args[0], name)
                    old = st.heap.get(k, UNDEF)
                    st.heap[k] = mkphi(b.args[0], w, old) if pol else mkphi(b.args[0], old, w)
        else:
            self.ev('attrset', st, node, base=b, name=name, value=self.deep(w, st), cls=None)

    def wrap(self, v, st):
        if v.op in ('bin', 'un', 'call', 'mcall', 'attr', 'list', 'dict', 'set', 'comp', 'phi', 'index', 'prim',
                    'store', 'listcat', 'append', 'mu', 'loopout', 'top', 'bcast'):
            if v.op == 'phi' and all(x.op in ('obj', 'fn', 'class', 'bound', 'const', 'closure') for x in v.args[1:]):
                return v
            return self.newref(v, st)
        return v

    def setname(self, name, v, st, fr):
        if name in fr.globals_:
            self.ev('gstore', st, ast.Pass(lineno=0), name='%s.%s' % (self.cur_module.name, name), value=self.deep(v, st))
            st.heap[('glob', self.cur_module.name, name)] = v
            return
        if name in fr.nonlocals_ and fr.func and fr.func.closure in st.envs:
            st.envs[fr.func.closure][name] = v
            return
        st.envs[fr.fid][name] = v

    # ---------------------------------------------------------------- branches
    def cond(self, node, st, fr, mod):
        return truth(self.deep(self.eval(node, st, fr, mod), st))

    def s_If(self, s, st, fr, mod):
        c = self.cond(s.test, st, fr, mod)
        d = self.decide(c, st)
        if d is True:
            return self.exec_block(s.body, st, fr, mod)
        if d is False:
            return self.exec_block(s.orelse, st, fr, mod)
        neg = False
        while c.op == 'not':
            c, neg = c.args[0], not neg
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + ((c, not neg),)
        s2.pc = st.pc + ((c, neg),)
        self.exec_block(s.body, s1, fr, mod)
        self.exec_block(s.orelse, s2, fr, mod)
        if neg:
            s1, s2 = s2, s1
        self.merge(c, s1, s2, st)

    def merge(self, c, s1, s2, st):
        """st := phi(c, s1, s2)."""
        if not s1.alive and not s2.alive:
            st.set_from(s1)
            st.alive = False
            return
        if not s1.alive:
            st.set_from(s2)
            return
        if not s2.alive:
            st.set_from(s1)
            return
        pc = tuple(x for x in s1.pc if x in s2.pc)
        heap = {}
        st.heap = heap
        st.pc = pc
        st.alive = True
        new = State()
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b:
                heap[k] = a
            elif a is None or b is None:
                if k[0] == 'cont':
                    heap[k] = a if a is not None else b
                elif k[0] in ('attr', 'cattr', 'glob'):
                    # first touched (lazily) on one side
                    x = a if a is not None else b
                    lazy = self.lazy_attr(k)
                    xx = x
                    if lazy is not None:
                        xc = (s1 if a is not None else s2).heap.get(('cont', x.args[0])) if x.op == 'ref' else x
                        if xc is lazy:
                            heap[k] = x
                        else:
                            heap[k] = ('defer', c, x if a is not None else lazy, x if b is not None else lazy)
                    else:
                        heap[k] = ('defer', c, a if a is not None else UNDEF, b if b is not None else UNDEF)
                else:
                    heap[k] = ('defer', c, a if a is not None else UNDEF, b if b is not None else UNDEF)
            else:
                heap[k] = ('defer', c, a, b)
        # contents first
        for k in list(heap):
            if k[0] == 'cont' and isinstance(heap[k], tuple):
                _, cc, a, b = heap[k]
                heap[k] = mkphi(cc, a, b)
        for k in list(heap):
            if isinstance(heap[k], tuple):
                _, cc, a, b = heap[k]
                heap[k] = self.mergeval(cc, a, b, s1, s2, st)
        envs = {}
        for fid in set(s1.envs) | set(s2.envs):
            e1, e2 = s1.envs.get(fid, {}), s2.envs.get(fid, {})
            e = {}
            for n in set(e1) | set(e2):
                a, b = e1.get(n, UNDEF), e2.get(n, UNDEF)
                e[n] = a if a is b else self.mergeval(c, a, b, s1, s2, st)
            envs[fid] = e
        st.envs = envs

    def mergeval(self, c, a, b, s1, s2, st):
        if a is b:
            return a
        if a.op == 'ref' and b.op == 'ref':
            ca, cb = self.deep(a, s1), self.deep(b, s2)
            if ca is cb:
                return a
            return self.newref(mkphi(c, ca, cb), st)
        if a.op == 'ref' or b.op == 'ref':
            ca, cb = self.deep(a, s1), self.deep(b, s2)
            return self.newref(mkphi(c, ca, cb), st)
        return mkphi(c, a, b)

    def lazy_attr(self, k):
        if k[0] == 'attr' and self.objopen.get(k[1]) is not None:
            return mk('attr', self.objopen[k[1]], k[2])
        if k[0] == 'cattr':
            c = self.pkg.classes.get(k[1]) if hasattr(self.pkg, 'classes') else None
            if c is None:
                mod = self.pkg.modules.get(k[1].split('.')[0])
                v = (mod.env or {}).get(k[1].split('.', 1)[1]) if mod is not None and '.' in k[1] else None
                c = v.args[0] if v is not None and v.op == 'class' else None
            if c is not None and k[2] in c.ns and c.ns[k[2]].op != 'fn':
                return mk('cattr', c.qual, k[2])
        if k[0] == 'glob':
            mod = self.pkg.modules.get(k[1])
            if mod is not None and mod.env and k[2] in mod.env:
                return mod.env[k[2]]
        return None

    def s_Try(self, s, st, fr, mod):
        n0 = len(self.undefs)
        s0 = st.copy()
        b = st.copy()
        und = False
        tid = 'try@%s' % self.loc(s)
        types = []
        for h in s.handlers:
            types.append(ast.unparse(h.type) if h.type is not None else 'BaseException')
        imports = []
        for n in s.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Import):
                    imports.extend(a.name for a in x.names)
                elif isinstance(x, ast.ImportFrom) and x.module:
                    imports.append(x.module)
        exc = mk('exc', tid, tuple(types), ' '.join(imports))
        if not self.discover:
            self.trydepth = getattr(self, 'trydepth', ()) + (exc,)
        try:
            self.exec_block(s.body, b, fr, mod)
            if b.alive:
                self.exec_block(s.orelse, b, fr, mod)
        except Undefined as e:
            if not any(t in ('NameError', 'Exception', 'BaseException') or 'NameError' in t for t in types):
                raise
            und = True
        if not self.discover:
            self.trydepth = self.trydepth[:-1]
        if und:
            # the name does not exist: the handler always runs
            st.set_from(s0)
            for h in s.handlers:
                self.exec_handler(h, st, fr, mod)
                break
        elif not s.handlers:
            st.set_from(b)
        elif self.decide(exc, s0) is False:
            st.set_from(b)
        elif self.decide(exc, s0) is True:
            st.set_from(s0)
            self.exec_handler(s.handlers[0], st, fr, mod)
        else:
            cur = b
            for h in s.handlers:
                hs = s0.copy()
                # anything the body changed may or may not have been changed
                if b.alive:
                    mid = State()
                    self.merge(mk('excmid', tid), b.copy(), s0.copy(), mid)
                    hs = mid
                hs.alive = True
                hs.pc = s0.pc + ((exc, True),)
                self.exec_handler(h, hs, fr, mod)
                new = State()
                self.merge(exc, hs, cur, new)
                cur = new
            pc = s0.pc if cur.alive and (b.alive) else cur.pc
            st.set_from(cur)
            if st.alive and b.alive:
                st.pc = tuple(x for x in st.pc if x[0] is not exc)
        if s.finalbody:
            if st.alive:
                self.exec_block(s.finalbody, st, fr, mod)
            else:
                tmp = st.copy()
                tmp.alive = True
                self.exec_block(s.finalbody, tmp, fr, mod)

    s_TryStar = s_Try

    def exec_handler(self, h, st, fr, mod):
        if h.name:
            self.setname(h.name, mk('top', 'exception'), st, fr)
        self.exec_block(h.body, st, fr, mod)

    def s_With(self, s, st, fr, mod):
        ctxs = []
        for it in s.items:
            v = self.eval(it.context_expr, st, fr, mod)
            c = self.deep(v, st)
            self.ev('with', st, s, ctx=c)
            ctxs.append(c)
            if it.optional_vars is not None:
                d = self.deref(v, st)
                if d.op == 'obj':
                    v = self.callmethod(d, '__enter__', [], [], st, fr, mod, s)
                self.assign(it.optional_vars, v, st, fr, mod, s)
        self.withstack = getattr(self, 'withstack', ()) + tuple(ctxs)
        self.exec_block(s.body, st, fr, mod)
        self.withstack = self.withstack[:len(self.withstack) - len(ctxs)]
        self.ev('endwith', st, s, n=len(ctxs))

    # ---------------------------------------------------------------- loops
    def s_Break(self, s, st, fr, mod):
        L = self.curloop()
        if L is not None and not self.discover:
            L.breaks.append((st.pc, self.loc(s)))
        L2 = self._breaks[-1] if getattr(self, '_breaks', None) else None
        if L2 is not None:
            L2.append(st.copy())
        st.alive = False

    def s_Continue(self, s, st, fr, mod):
        L = self.curloop()
        if L is not None and not self.discover:
            L.continues.append((st.pc, self.loc(s)))
        c2 = self._conts[-1] if getattr(self, '_conts', None) else None
        if c2 is not None:
            c2.append(st.copy())
        st.alive = False

    def curloop(self):
        return self.loops.get(self.loopstack[-1]) if self.loopstack else None

    def s_For(self, s, st, fr, mod):
        it = self.deep(self.sel(self.eval(s.iter, st, fr, mod), st), st)
        elems = unrollable(it)
        if elems is not None:
            self._breaks = getattr(self, '_breaks', []) + [[]]
            for e in elems:
                if not st.alive:
                    break
                self._conts = getattr(self, '_conts', []) + [[]]
                self.assign(s.target, e, st, fr, mod, s)
                self.exec_block(s.body, st, fr, mod)
                conts = self._conts.pop()
                self.join_states(conts, st)
            brs = self._breaks.pop()
            self.join_states(brs, st)
            if st.alive and s.orelse and not brs:
                self.exec_block(s.orelse, st, fr, mod)
            return
        lid = self.newloopid()
        count = length(it)
        lv = mk('lv', lid, count)
        elem = element(it, lv)
        self.loop(s, st, fr, mod, lid, count, s.target, elem, None)

    def s_While(self, s, st, fr, mod):
        lid = self.newloopid()
        count = mk('whilecount', lid)
        self.loop(s, st, fr, mod, lid, count, None, None, s.test)

    def newloopid(self):
        return 'L%d' % self.fresh()

    def loop(self, s, st, fr, mod, lid, count, target, elem, test):
        names = set()
        for n in _stmt_nodes(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
        modset = set()
        env = st.envs[fr.fid]
        for n in names:
            if n in env:
                modset.add(('env', fr.fid, n))
        for n in _stmt_nodes(s):
            b = None
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    while isinstance(t, ast.Subscript):
                        t = t.value
                        b = t
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
                b = n.func.value
            if isinstance(b, ast.Name) and b.id in env and env[b.id].op == 'ref':
                modset.add(('heap', ('cont', env[b.id].args[0])))
        rounds = 0
        pre = st
        while True:
            rounds += 1
            # discovery
            self.discover += 1
            hit0 = set(self.undefhit)
            ev0, lp0, im0, ud0, cnt0 = None, None, len(self.imprecise), len(self.undefs), None
            d = self.loop_head(pre, modset, lid)
            self.loop_body(s, d, fr, mod, lid, count, target, elem, test)
            self.discover -= 1
            del self.imprecise[im0:]
            del self.undefs[ud0:]
            new = self.changed(pre, modset, d, lid)
            # read before any definition in the iteration: defined by an earlier one
            for fid, n in self.undefhit - hit0:
                if fid == fr.fid and n in names and n not in env:
                    new.add(('env', fid, n))
            self.undefhit = hit0
            if not (new - modset) or rounds >= (2 if self.discover else 4):
                modset |= new
                break
            modset |= new
        L = Loop(lid, 'while' if test is not None else 'for', count, self.loc(s), self.callstack, st.pc, self.loopstack)
        L.node = s
        if not self.discover:
            self.loops[lid] = L
        h = self.loop_head(pre, modset, lid)
        for k in modset:
            L.init[kname(k)] = self.deep(self.getkey(pre, k), pre)
        entry_pc = st.pc
        brs = self.loop_body(s, h, fr, mod, lid, count, target, elem, test, L)
        for k in modset:
            if h.alive:
                L.back[kname(k)] = self.deep(self.getkey(h, k), h)
            else:
                L.back[kname(k)] = UNDEF
        # exit state
        out = pre.copy()
        newnames = {}
        for fid, e in h.envs.items():
            if fid in out.envs:
                for n, v in e.items():
                    if n not in out.envs[fid] and fid == fr.fid:
                        newnames[n] = v
        for k in modset:
            out_t = self.loopout(L, k)
            if k[0] == 'heap' and k[1][0] == 'cont':
                out.heap[k[1]] = out_t
            elif k[0] == 'env':
                out.envs[k[1]][k[2]] = self.wrap(out_t, out)
            else:
                out.heap[k[1]] = self.wrap(out_t, out)
        # objects and contents created in the loop remain reachable
        for k, v in h.heap.items():
            if k not in out.heap:
                out.heap[k] = v
        for n, v in newnames.items():
            c = self.deep(v, h)
            keep = c if c.op in ('obj', 'const', 'fn') else mk('loopout', lid, ('env', n), UNDEF, c)
            L.back[('env', n)] = c
            L.init[('env', n)] = UNDEF
            out.envs[fr.fid][n] = self.wrap(keep, out)
        out.pc = entry_pc
        out.alive = True
        if test is not None and isinstance(test, ast.Constant) and test.value and not L.breaks and not self.discover:
            out.alive = False
        st.set_from(out)
        if s.orelse and st.alive:
            self.exec_block(s.orelse, st, fr, mod)

    def loopout(self, L, k):
        n = kname(k)
        init, back = L.init.get(n, UNDEF), L.back.get(n, UNDEF)
        if init is UNDEF and back.op in ('obj', 'const', 'fn'):
            return back
        mu = mk('mu', L.lid, n)
        # list building by append  ->  comprehension
        if not L.breaks and not L.returns:
            conds = []
            b = back
            while b.op == 'phi':
                if b.args[2] is mu:
                    conds.append(b.args[0])
                    b = b.args[1]
                elif b.args[1] is mu:
                    conds.append(mknot(b.args[0]))
                    b = b.args[2]
                else:
                    break
            if b.op == 'append' and b.args[0] is mu and mu not in set(walk(b.args[1])):
                comp = mk('comp', L.lid, L.count, b.args[1], tuple(conds))
                if init.op == 'list' and not init.args[0]:
                    return comp
                return mk('listcat', init, comp)
            if b.op == 'listcat' and b.args[0] is mu and not conds and mu not in set(walk(b.args[1])):
                comp = mk('flatcomp', L.lid, L.count, b.args[1])
                if init.op == 'list' and not init.args[0]:
                    return comp
        if back is mu:
            return init
        return mk('loopout', L.lid, n, init, back)

    def getkey(self, st, k):
        if k[0] == 'env':
            return st.envs.get(k[1], {}).get(k[2], UNDEF)
        v = st.heap.get(k[1])
        if v is None:
            lz = self.lazy_attr(k[1])
            return lz if lz is not None else UNDEF
        return v

    def loop_head(self, pre, modset, lid):
        h = pre.copy()
        for k in modset:
            n = kname(k)
            mu = mk('mu', lid, n)
            if k[0] == 'env':
                h.envs[k[1]][k[2]] = self.newref(mu, h)
            elif k[1][0] == 'cont':
                h.heap[k[1]] = mu
            else:
                h.heap[k[1]] = self.newref(mu, h)
        return h

    def changed(self, pre, modset, h, lid):
        out = set()
        for fid, e in pre.envs.items():
            e2 = h.envs.get(fid, {})
            for n, v in e.items():
                k = ('env', fid, n)
                if k in modset:
                    continue
                if e2.get(n, UNDEF) is not v:
                    out.add(k)
        for k, v in pre.heap.items():
            kk = ('heap', k)
            if kk in modset:
                continue
            if h.heap.get(k) is not v:
                out.add(kk)
        for k, v in h.heap.items():
            if k not in pre.heap and k[0] in ('attr', 'cattr', 'glob'):
                lz = self.lazy_attr(k)
                if lz is not None and v.op == 'ref' and h.heap.get(('cont', v.args[0])) is lz:
                    continue
                if k[0] == 'attr' and k[1] not in self._preobjs(pre):
                    continue
                out.add(('heap', k))
        return out

    def _preobjs(self, pre):
        return set(k[1] for k in pre.heap if k[0] == 'attr') | set(self.objopen)

    def loop_body(self, s, h, fr, mod, lid, count, target, elem, test, L=None):
        saved = self.loopstack
        self.loopstack = saved + (lid,)
        self._breaks = getattr(self, '_breaks', []) + [[]]
        self._conts = getattr(self, '_conts', []) + [[]]
        body_pc = h.pc
        if test is not None:
            c = self.cond(test, h, fr, mod)
            if L is not None:
                L.cond = c
            d = self.decide(c, h)
            if d is None:
                neg = False
                while c.op == 'not':
                    c, neg = c.args[0], not neg
                h.pc = h.pc + ((c, not neg),)
        if target is not None:
            self.assign(target, elem, h, fr, mod, s)
        self.exec_block(s.body, h, fr, mod)
        conts = self._conts.pop()
        self.join_states(conts, h)
        brs = self._breaks.pop()
        self.loopstack = saved
        return brs

    def join_states(self, others, st):
        for o in others:
            o.alive = True
            if not st.alive:
                st.set_from(o)
                continue
            # condition separating the two: first pc entry of o not in st
            c = None
            for (t, pol) in o.pc:
                if (t, not pol) in st.pc or (t, pol) not in st.pc:
                    c = (t, pol)
                    break
            new = State()
            if c is None:
                self.merge(mk('join', self.fresh()), o, st.copy(), new)
            elif c[1]:
                self.merge(c[0], o, st.copy(), new)
            else:
                self.merge(c[0], st.copy(), o, new)
            st.set_from(new)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, st, fr, mod):
        self.cur_module = mod
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.imprecise.append('%s unhandled expression %s' % (self.loc(e), type(e).__name__))
            return mk('top', type(e).__name__)
        return m(e, st, fr, mod)

    def e_Constant(self, e, st, fr, mod):
        if e.value is Ellipsis:
            return mk('ellipsis')
        return const(e.value)

    def e_Name(self, e, st, fr, mod):
        return self.sel(self.name(e.id, st, fr, mod, e), st)

    def name(self, n, st, fr, mod, node):
        if n not in fr.globals_:
            fid = fr.fid
            seen = 0
            while fid is not None and seen < 20:
                seen += 1
                env = st.envs.get(fid)
                if env is None:
                    break
                if n in env and n != '__parent__':
                    v = env[n]
                    vs = self.sel(self.deref(v, st), st)
                    if vs is UNDEF:
                        self.undefhit.add((fr.fid, n))
                        self.undefs.append((self.loc(node), 'local name %s is not defined on this path' % n))
                        return mk('top', 'undefined')
                    if vs.op == 'phi' and UNDEF in vs.args[1:]:
                        self.undefs.append((self.loc(node), 'local name %s may be undefined (guard %s)' % (n, show(vs.args[0], 3)),
                                            vs.args[0], st.pc))
                        x = [a for a in vs.args[1:] if a is not UNDEF]
                        return x[0] if x else mk('top', 'undefined')
                    return v
                if '__parent__' in env:
                    fid = env['__parent__'].args[0]
                    continue
                f = self.frame_closure.get(fid) if hasattr(self, 'frame_closure') else None
                fid = f
        k = ('glob', mod.name, n)
        if k in st.heap:
            return st.heap[k]
        if mod.env is not None and n in mod.env and (fr.fid[0] != 'mod' if isinstance(fr.fid, tuple) else True):
            return mod.env[n]
        if n in ('__name__',):
            return const(mod.name)
        if n in ('__file__', '__doc__'):
            return mk('top', n)
        if n in BUILTINS:
            return ext('builtins.' + n)
        if self.module_level:
            raise Undefined(n)
        self.undefs.append((self.loc(node), 'name %s is not defined' % n))
        self.undefhit.add((fr.fid, n))
        return mk('top', 'undefined')

    def e_NamedExpr(self, e, st, fr, mod):
        v = self.eval(e.value, st, fr, mod)
        self.assign(e.target, v, st, fr, mod, e)
        return self.name(e.target.id, st, fr, mod, e)

    def e_Tuple(self, e, st, fr, mod):
        return self._seq('tuple', e, st, fr, mod)

    def e_List(self, e, st, fr, mod):
        return self._seq('list', e, st, fr, mod)

    def e_Set(self, e, st, fr, mod):
        return self._seq('set', e, st, fr, mod)

    def _seq(self, op, e, st, fr, mod):
        items = []
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.deref(self.eval(x.value, st, fr, mod), st)
                if v.op in ('tuple', 'list'):
                    items.extend(v.args[0])
                else:
                    star = True
                    items.append(mk('star', v))
            else:
                items.append(self.wrap(self.eval(x, st, fr, mod), st) if op != 'tuple' else self.eval(x, st, fr, mod))
        return mk(op, tuple(items))

    def e_Dict(self, e, st, fr, mod):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.eval(v, st, fr, mod), st)
                if d.op == 'dict':
                    items.extend(d.args[0])
                else:
                    items.append((mk('star', d), d))
            else:
                items.append((self.deep(self.eval(k, st, fr, mod), st), self.eval(v, st, fr, mod)))
        return mk('dict', tuple(items))

    def e_JoinedStr(self, e, st, fr, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.deep(self.eval(v.value, st, fr, mod), st))
            else:
                parts.append(self.eval(v, st, fr, mod))
        if all(is_const(p) and isinstance(p.args[0], str) for p in parts):
            return const(''.join(p.args[0] for p in parts))
        return mk('fmt', tuple(parts))

    def e_Attribute(self, e, st, fr, mod):
        v = self.eval(e.value, st, fr, mod)
        if self.trace:
            self.ev('see', st, e, value=mk('attr', self.deep(v, st), e.attr))
        return self.getattr(v, e.attr, st, fr, mod, e)

    def getattr(self, v, name, st, fr, mod, node):
        d = self.sel(self.deref(v, st), st)
        if d.op == 'phi' and any(self.deref(a, st).op in ('obj', 'class', 'module', 'ntuple') for a in d.args[1:]):
            a = self.getattr(d.args[1], name, st, fr, mod, node)
            b = self.getattr(d.args[2], name, st, fr, mod, node)
            return mkphi(d.args[0], self.deep(a, st), self.deep(b, st))
        if d.op == 'module':
            m = d.args[0]
            self.pkg.load(m.name)
            k = ('glob', m.name, name)
            if k in st.heap:
                return st.heap[k]
            if name in m.env:
                return m.env[name]
            if name in ('__name__', '__doc__', '__file__'):
                return mk('top', name)
            self.undefs.append((self.loc(node), 'module %s has no name %s' % (m.name, name)))
            return mk('top', 'undefined')
        if d.op == 'ext':
            if d.args[0] == 'numpy' and name == 'newaxis':
                return NONE
            if d.args[0] == 'PKG' and name in self.pkg.modules:
                return mk('module', self.pkg.modules[name])
            if d.args[0] == 'PKG':
                init = self.pkg.modules.get('__init__')
                if init and init.env and name in init.env:
                    return init.env[name]
            return ext(d.args[0] + '.' + name)
        if d.op == 'obj':
            return self.objattr(d, name, st, fr, mod, node)
        if d.op == 'class':
            k = None
            for c in d.args[0].mro():
                k = ('cattr', c.qual, name)
                if k in st.heap:
                    return st.heap[k]
                if name in c.ns:
                    w = c.ns[name]
                    if w.op == 'fn':
                        if w.args[0].kind == 'classmethod':
                            return mk('bound', w.args[0], d)
                        return w
                    if w.op == 'const' or w.op == 'fn':
                        return w if not self.class_attr_written(c, name) else mk('cattr', c.qual, name)
                    return mk('cattr', c.qual, name)
            if name == '__name__':
                return const(d.args[0].name)
            return mk('attr', d, name)
        if d.op == 'ntuple':
            fields, vals = d.args[1], d.args[2]
            if name in fields:
                return vals[fields.index(name)]
        if d.op == 'superp':
            cls, obj = d.args
            w, c = self.objcls[obj.args[0]].lookup(name, after=cls) if obj.op == 'obj' else (None, None)
            if w is not None and w.op == 'fn':
                return mk('bound', w.args[0], obj)
            return mk('attr', d, name)
        if d.op == 'const' and isinstance(d.args[0], str):
            return mk('attr', d, name)
        if d is NONE:
            self.undefs.append((self.loc(node), 'attribute %s of None' % name))
        return mk('attr', self.deep(d, st), name)

    def class_attr_written(self, c, name):
        w = getattr(self.pkg, '_cwrites', None)
        if w is None:
            w = set()
            for m in self.pkg.modules.values():
                for n in ast.walk(m.tree):
                    tg = []
                    if isinstance(n, ast.Assign):
                        tg = n.targets
                    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                        tg = [n.target]
                    for t in tg:
                        for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                            if isinstance(x, ast.Attribute):
                                w.add(x.attr)
            self.pkg._cwrites = w
        return name in w

    def objattr(self, d, name, st, fr, mod, node):
        oid = d.args[0]
        k = ('attr', oid, name)
        if k in st.heap:
            v = st.heap[k]
            vs = self.sel(self.deref(v, st), st)
            if vs is UNDEF or (vs.op == 'phi' and UNDEF in vs.args[1:]):
                pass
            else:
                return v
            arms = [a for a in vs.args[1:] if a is not UNDEF] if vs.op == 'phi' else []
            if arms:
                return arms[0]
        cls = self.objcls.get(oid)
        if cls is not None:
            w, c = cls.lookup(name)
            if w is None and name.startswith('__') and not name.endswith('__'):
                pass
            if w is not None:
                if w.op == 'fn':
                    f = w.args[0]
                    if f.kind == 'property':
                        return self.invoke(f, [d], [], st, mod, node)
                    if f.kind == 'staticmethod':
                        return w
                    if f.kind == 'classmethod':
                        return mk('bound', f, mk('class', cls))
                    return mk('bound', f, d)
                if w.op in ('closure', 'partial'):
                    return mk('partial', w, (d,), ())
                return self.getattr(mk('class', cls), name, st, fr, mod, node)
            if name == '__class__':
                return mk('class', cls)
            if name == '__dict__':
                return mk('attr', d, name)
        if self.objopen.get(oid) is not None:
            r = self.newref(mk('attr', self.objopen[oid], name), st)
            st.heap[k] = r
            return r
        if cls is not None and not cls.ext_bases_nonobject():
            self.undefs.append((self.loc(node), 'object of class %s has no attribute %s' % (cls.name, name)))
        return mk('attr', d, name)

    def e_Subscript(self, e, st, fr, mod):
        b = self.eval(e.value, st, fr, mod)
        i = self.deep(self.eval(e.slice, st, fr, mod), st)
        bd = self.sel(self.deref(b, st), st)
        if self.trace:
            self.ev('see', st, e, value=mk('index', self.deep(bd, st), i))
        return self.index(bd, i, st, self.ev, e)

    def index(self, bd, i, st, ev=None, node=None):
        if bd.op in ('tuple', 'list') and is_num(i) and isinstance(i.args[0], int):
            n = i.args[0]
            els = bd.args[0]
            if -len(els) <= n < len(els) and not any(x.op == 'star' for x in els):
                return els[n]
        if bd.op in ('tuple', 'list') and i.op == 'slice' and all(x is NONE or (is_num(x) and isinstance(x.args[0], int)) for x in i.args) \
                and not any(x.op == 'star' for x in bd.args[0]):
            return mk(bd.op, bd.args[0][slice(*[x.args[0] for x in i.args])])
        if bd.op == 'dict':
            for k, v in bd.args[0]:
                if k is i:
                    return v
            ks = [k for k, v in bd.args[0]]
            if 0 < len(ks) <= 6 and all(k.op == 'const' for k in ks) and i.op not in ('const', 'slice', 'tuple', 'lv'):
                # one of the entries (another key is an error)
                v = bd.args[0][-1][1]
                for k, w in reversed(bd.args[0][:-1]):
                    v = mkphi(mkcmp('==', i, k), w, v)
                return v
        return mkindex(self.deep(bd, st), i)

    def e_Slice(self, e, st, fr, mod):
        f = lambda x: NONE if x is None else self.deep(self.eval(x, st, fr, mod), st)
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, st, fr, mod):
        return mk('star', self.deep(self.eval(e.value, st, fr, mod), st))

    def e_UnaryOp(self, e, st, fr, mod):
        v = self.deep(self.eval(e.operand, st, fr, mod), st)
        if self.trace:
            self.ev('see', st, e, value=mk('un', type(e.op).__name__, v))
        if isinstance(e.op, ast.Not):
            return mknot(truth(v))
        if isinstance(e.op, ast.USub):
            if is_num(v):
                return const(-v.args[0])
            return mk('un', '-', v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('un', '~', v)

    def e_BinOp(self, e, st, fr, mod):
        a = self.deep(self.eval(e.left, st, fr, mod), st)
        b = self.deep(self.eval(e.right, st, fr, mod), st)
        a, b = self.sel(a, st), self.sel(b, st)
        # operators of package classes
        for x, y, nm in ((a, b, '__%s__'), (b, a, '__r%s__')):
            if x.op == 'obj' and self.objcls.get(x.args[0]) is not None:
                dn = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '@': 'matmul'}.get(_OPS.get(type(e.op)))
                if dn:
                    w, c = self.objcls[x.args[0]].lookup(nm % dn)
                    if w is not None and w.op == 'fn':
                        return self.invoke(w.args[0], [x, y], [], st, mod, e)
        r = self.binop(_OPS.get(type(e.op), '?'), a, b)
        self.ev('arith', st, e, op=_OPS.get(type(e.op), '?'), a=a, b=b)
        return r

    def binop(self, op, a, b):
        return mkbin(op, a, b)

    def e_BoolOp(self, e, st, fr, mod):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        vals = []
        s = st
        pc0 = st.pc
        for x in e.values:
            v = self.deep(self.eval(x, s, fr, mod), s)
            v = self.sel(v, s)
            t = truth(v)
            d = self.decide(t, s)
            if op == 'and':
                if d is False:
                    vals.append(v if not vals else FALSE)
                    break
                if d is True and x is not e.values[-1]:
                    continue
            else:
                if d is True:
                    vals.append(v)
                    break
                if d is False and x is not e.values[-1]:
                    continue
            vals.append(v)
            c, neg = t, False
            while c.op == 'not':
                c, neg = c.args[0], not neg
            st.pc = st.pc + ((c, (op == 'and') != neg),)
        st.pc = pc0
        if len(vals) == 1:
            return vals[0]
        if any(self.decide(truth(v), st) is False for v in vals) and op == 'and':
            return FALSE
        return mk('bool', op, tuple(vals))

    def e_Compare(self, e, st, fr, mod):
        left = self.deep(self.eval(e.left, st, fr, mod), st)
        left = self.sel(left, st)
        out = []
        for o, r in zip(e.ops, e.comparators):
            right = self.sel(self.deep(self.eval(r, st, fr, mod), st), st)
            op = _CMPS[type(o)]
            if self.trace:
                self.ev('see', st, e, value=mk('cmp', op, left, right))
            # __eq__ of package classes: keep as a comparison, but log it
            if left.op == 'obj' and op in ('==', '!='):
                self.ev('objcmp', st, e, a=left, b=right, op=op)
            out.append(mkcmp(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return mk('bool', 'and', tuple(out))

    def e_IfExp(self, e, st, fr, mod):
        c = self.cond(e.test, st, fr, mod)
        d = self.decide(c, st)
        if d is True:
            return self.eval(e.body, st, fr, mod)
        if d is False:
            return self.eval(e.orelse, st, fr, mod)
        neg = False
        while c.op == 'not':
            c, neg = c.args[0], not neg
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + ((c, not neg),)
        s2.pc = st.pc + ((c, neg),)
        a = self.eval(e.body, s1, fr, mod)
        b = self.eval(e.orelse, s2, fr, mod)
        s1.envs[fr.fid]['__ifexp__'] = a
        s2.envs[fr.fid]['__ifexp__'] = b
        if neg:
            s1, s2 = s2, s1
        self.merge(c, s1, s2, st)
        return st.envs[fr.fid].pop('__ifexp__', mk('top', 'ifexp'))

    def e_Lambda(self, e, st, fr, mod):
        f = Func(mod, (fr.func.qual if fr.func else mod.name) + '.<lambda>', e, None, fr.fid)
        return mk('closure', f)

    def e_ListComp(self, e, st, fr, mod):
        return self.comp(e, e.generators, e.elt, st, fr, mod, 'list')

    def e_GeneratorExp(self, e, st, fr, mod):
        return self.comp(e, e.generators, e.elt, st, fr, mod, 'gen')

    def e_SetComp(self, e, st, fr, mod):
        return mk('call', ext('builtins.set'), (self.deep(self.comp(e, e.generators, e.elt, st, fr, mod, 'set'), st),), ())

    def e_DictComp(self, e, st, fr, mod):
        v = self.deep(self.comp(e, e.generators, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), st, fr, mod, 'dict'), st)
        if v.op == 'list':
            items = []
            for p in v.args[0]:
                if p.op != 'tuple':
                    return mk('call', ext('builtins.dict'), (v,), ())
                items.append((p.args[0][0], p.args[0][1]))
            return mk('dict', tuple(items))
        return mk('call', ext('builtins.dict'), (v,), ())

    def comp(self, e, gens, elt, st, fr, mod, kind):
        # own scope
        fid = ('comp', self.fresh())
        sub = Frame(fid, fr.func, fr)
        sub.globals_ = fr.globals_
        if not hasattr(self, 'frame_closure'):
            self.frame_closure = {}
        self.frame_closure[fid] = fr.fid
        st.envs[fid] = {}
        r = self._comp(e, gens, elt, st, sub, mod)
        st.envs.pop(fid, None)
        return r

    def _comp(self, e, gens, elt, st, fr, mod):
        if not gens:
            return mk('list', (self.eval(elt, st, fr, mod),))
        g = gens[0]
        it = self.deep(self.sel(self.eval(g.iter, st, fr, mod), st), st)
        elems = unrollable(it)
        if elems is not None:
            out = []
            ok = True
            res = mk('list', ())
            for x in elems:
                self.assign(g.target, x, st, fr, mod, e)
                conds = [self.cond(c, st, fr, mod) for c in g.ifs]
                ds = [self.decide(c, st) for c in conds]
                if any(d is False for d in ds):
                    continue
                sub = self._comp(e, gens[1:], elt, st, fr, mod)
                if any(d is None for d in ds):
                    res = mk('listcat', res, mkphi(conds[0], self.deep(sub, st), mk('list', ())))
                elif res.op == 'list' and sub.op == 'list':
                    res = mk('list', res.args[0] + sub.args[0])
                else:
                    res = mk('listcat', self.deep(res, st), self.deep(sub, st))
            return res
        lid = self.newloopid()
        count = length(it)
        lv = mk('lv', lid, count)
        saved, pc0 = self.loopstack, st.pc
        L = Loop(lid, 'comp', count, self.loc(e), self.callstack, st.pc, self.loopstack)
        if not self.discover:
            self.loops[lid] = L
        self.loopstack = saved + (lid,)
        self.assign(g.target, element(it, lv), st, fr, mod, e)
        conds = []
        for c in g.ifs:
            t = self.cond(c, st, fr, mod)
            if self.decide(t, st) is not True:
                conds.append(t)
                cc, neg = t, False
                while cc.op == 'not':
                    cc, neg = cc.args[0], not neg
                st.pc = st.pc + ((cc, not neg),)
        if len(gens) > 1:
            inner = self.deep(self._comp(e, gens[1:], elt, st, fr, mod), st)
            r = mk('flatcomp', lid, count, inner) if not conds else mk('flatcomp', lid, count, mkphi(conds[0], inner, mk('list', ())))
        else:
            v = self.deep(self.eval(elt, st, fr, mod), st)
            r = mk('comp', lid, count, v, tuple(conds))
        self.loopstack, st.pc = saved, pc0
        return r

    def e_Await(self, e, st, fr, mod):
        return self.eval(e.value, st, fr, mod)

    def e_Yield(self, e, st, fr, mod):
        v = self.deep(self.eval(e.value, st, fr, mod), st) if e.value is not None else NONE
        y = st.envs[fr.fid].get('__yield__')
        if y is not None:
            self.setcontent(y, mkappend(self.deep(y, st), v), st)
        return NONE

    def e_YieldFrom(self, e, st, fr, mod):
        v = self.deep(self.eval(e.value, st, fr, mod), st)
        y = st.envs[fr.fid].get('__yield__')
        if y is not None:
            self.setcontent(y, mk('listcat', self.deep(y, st), v), st)
        return NONE

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr, mod):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if e.args:
                c = self.deref(self.eval(e.args[0], st, fr, mod), st)
                o = self.deref(self.eval(e.args[1], st, fr, mod), st) if len(e.args) > 1 else NONE
                if c.op == 'class':
                    return mk('superp', c.args[0], o)
            else:
                f = fr.func
                if f is not None and f.cls is not None:
                    p = f.params()
                    o = self.deref(self.name(p[0], st, fr, mod, e), st) if p else NONE
                    return mk('superp', f.cls, o)
            return mk('top', 'super')
        fv = None
        if isinstance(e.func, ast.Attribute):
            bv = self.eval(e.func.value, st, fr, mod)
            args, kw = self.evalargs(e, st, fr, mod)
            return self.callmethod(bv, e.func.attr, args, kw, st, fr, mod, e)
        fv = self.eval(e.func, st, fr, mod)
        args, kw = self.evalargs(e, st, fr, mod)
        return self.call(fv, args, kw, st, fr, mod, e)

    def evalargs(self, e, st, fr, mod):
        args, kw = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.sel(self.deref(self.eval(a.value, st, fr, mod), st), st)
                if v.op in ('tuple', 'list') and not any(x.op == 'star' for x in v.args[0]):
                    args.extend(v.args[0])
                elif v.op == 'ntuple':
                    args.extend(v.args[2])
                else:
                    args.append(mk('star', self.deep(v, st)))
            else:
                args.append(self.eval(a, st, fr, mod))
        for k in e.keywords:
            v = self.eval(k.value, st, fr, mod)
            if k.arg is None:
                d = self.sel(self.deref(v, st), st)
                if d.op == 'dict' and all(is_const(kk) for kk, _ in d.args[0]):
                    for kk, vv in d.args[0]:
                        kw.append((kk.args[0], vv))
                else:
                    kw.append(('**', self.deep(d, st)))
            else:
                kw.append((k.arg, v))
        return args, kw

    def callmethod(self, bv, name, args, kw, st, fr, mod, node):
        d = self.sel(self.deref(bv, st), st)
        if d.op in ('module', 'ext', 'obj', 'class', 'superp', 'ntuple'):
            # objects of a class: bound method or callable attribute
            if d.op == 'superp':
                obj = d.args[1]
                w, c = (None, None)
                if obj.op == 'obj' and self.objcls.get(obj.args[0]):
                    w, c = self.objcls[obj.args[0]].lookup(name, after=d.args[0])
                elif obj.op == 'class':
                    w, c = obj.args[0].lookup(name, after=d.args[0])
                if w is not None and w.op == 'fn':
                    return self.invoke(w.args[0], [obj] + args, kw, st, mod, node)
                dk = mk('attr', d, name)
                return self.unknown_call(dk, args, kw, st, node)
            if d.op == 'ext':
                fv = self.getattr(d, name, st, fr, mod, node)
                return self.call(fv, args, kw, st, fr, mod, node)
            fv = self.getattr(d, name, st, fr, mod, node)
            fd = self.sel(self.deref(fv, st), st)
            if fd.op == 'attr' and d.op == 'obj' and fd.args[0] is d:
                return self.unknown_mcall(d, name, args, kw, st, node, bv)
            return self.call(fv, args, kw, st, fr, mod, node)
        if d.op == 'phi' and any(self.deref(a, st).op in ('obj', 'class', 'module', 'ext') for a in d.args[1:]):
            return self.callphi(d, lambda x, s: self.callmethod(x, name, args, kw, s, fr, mod, node), st, fr)
        # containers
        if d.op == 'dict':
            r = self.dictmethod(bv, d, name, args, kw, st)
            if r is not None:
                return r
        if name in ('append', 'extend', 'insert') and d.op in ('list', 'append', 'listcat', 'comp', 'mu', 'phi', 'loopout', 'flatcomp') and not kw:
            v = args[-1] if args else NONE
            dd = self.deep(d, st)
            self.ev('mutcall', st, node, target=dd, name=name, args=tuple(self.deep(a, st) for a in args))
            if name == 'append' and len(args) == 1:
                w = self.wrap(v, st)
                new = mkappend(d if d.op == 'list' else dd, w if d.op == 'list' else self.deep(w, st))
            elif name == 'extend' and len(args) == 1:
                x = self.deref(v, st)
                if d.op == 'list' and x.op in ('list', 'tuple') and not any(y.op == 'star' for y in x.args[0]):
                    new = mk('list', d.args[0] + x.args[0])
                else:
                    new = mk('listcat', dd, self.deep(v, st))
            else:
                new = mk('mutated', dd, name, tuple(self.deep(a, st) for a in args))
            if bv.op == 'ref':
                self.setcontent(bv, new, st)
            return NONE
        if d.op == 'list' and name == 'pop' and not args and d.args[0] and bv.op == 'ref':
            self.setcontent(bv, mk('list', d.args[0][:-1]), st)
            return d.args[0][-1]
        if d.op == 'const' and isinstance(d.args[0], str) and name in (
                'lower', 'upper', 'strip', 'format', 'join', 'startswith', 'endswith', 'replace', 'split', 'title', 'encode', 'capitalize'):
            ad = [self.deep(a, st) for a in args]
            if name == 'join' and len(ad) == 1 and ad[0].op in ('list', 'tuple') and all(is_const(x) for x in ad[0].args[0]):
                try:
                    return const(d.args[0].join(x.args[0] for x in ad[0].args[0]))
                except TypeError:
                    pass
            if all(is_const(a) for a in ad) and not kw and name != 'encode':
                try:
                    r = getattr(d.args[0], name)(*[a.args[0] for a in ad])
                    if isinstance(r, (str, bool, int)):
                        return const(r)
                    if isinstance(r, list):
                        return mk('list', tuple(const(x) for x in r))
                except Exception:
                    pass
        return self.unknown_mcall(d, name, args, kw, st, node, bv)

    def dictmethod(self, bv, d, name, args, kw, st):
        if name == 'items':
            return mk('list', tuple(mk('tuple', (k, v)) for k, v in d.args[0]))
        if name == 'keys':
            return mk('list', tuple(k for k, v in d.args[0]))
        if name == 'values':
            return mk('list', tuple(v for k, v in d.args[0]))
        if name == 'get' and args:
            k0 = self.deep(args[0], st)
            for k, v in d.args[0]:
                if k is k0:
                    return v
            if is_const(k0) and all(is_const(k) for k, v in d.args[0]):
                return args[1] if len(args) > 1 else NONE
        if name == 'pop' and args and bv.op == 'ref':
            k0 = self.deep(args[0], st)
            for k, v in d.args[0]:
                if k is k0:
                    self.setcontent(bv, mk('dict', tuple(x for x in d.args[0] if x[0] is not k0)), st)
                    return v
        if name == 'update' and len(args) <= 1 and bv.op == 'ref':
            o = self.deref(args[0], st) if args else mk('dict', ())
            if o.op == 'dict':
                new = dict((k, v) for k, v in d.args[0])
                new.update(dict(o.args[0]))
                new.update({const(k): v for k, v in kw})
                self.setcontent(bv, mk('dict', tuple(new.items())), st)
                return NONE
        if name == 'copy':
            return d
        return None

    def callphi(self, d, f, st, fr):
        c = d.args[0]
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + ((c, True),)
        s2.pc = st.pc + ((c, False),)
        a = f(d.args[1], s1)
        b = f(d.args[2], s2)
        s1.envs[fr.fid]['__cp__'] = a
        s2.envs[fr.fid]['__cp__'] = b
        self.merge(c, s1, s2, st)
        return st.envs[fr.fid].pop('__cp__', mk('top', 'callphi'))

    def call(self, fv, args, kw, st, fr, mod, node):
        d = self.sel(self.deref(fv, st), st)
        if d.op in ('fn', 'closure'):
            return self.invoke(d.args[0], args, kw, st, mod, node)
        if d.op == 'bound':
            return self.invoke(d.args[0], [d.args[1]] + list(args), kw, st, mod, node)
        if d.op == 'partial':
            return self.call(d.args[0], list(d.args[1]) + list(args), list(d.args[2]) + list(kw), st, fr, mod, node)
        if d.op == 'class':
            return self.instantiate(d.args[0], args, kw, st, fr, mod, node)
        if d.op == 'ntclass':
            fields = d.args[1]
            vals = {}
            for f, a in zip(fields, args):
                vals[f] = a
            for k, v in kw:
                vals[k] = v
            bad = [k for k, v in kw if k not in fields] + (['too many'] if len(args) > len(fields) else [])
            miss = [f for f in fields if f not in vals]
            if bad or miss:
                self.undefs.append((self.loc(node), 'record %s: missing %s unexpected %s' % (d.args[0], miss, bad)))
            r = mk('ntuple', d.args[0], fields, tuple(vals.get(f, UNDEF) for f in fields))
            self.ev('record', st, node, value=self.deep(r, st))
            return r
        if d.op == 'phi':
            return self.callphi(d, lambda x, s: self.call(x, args, kw, s, fr, mod, node), st, fr)
        if d.op == 'obj':
            fv = self.objattr(d, '__call__', st, fr, mod, node)
            fd = self.deref(fv, st)
            if fd.op == 'bound':
                return self.call(fv, args, kw, st, fr, mod, node)
        if d.op == 'ext':
            if self.pkg.world is not None and d.args[0].startswith('mpi4py.MPI.COMM_WORLD.Get_') and not args:
                w = self.pkg.world
                if d.args[0].endswith('Get_size'):
                    return NPROCS if w == 'mpiN' else const(1)
                if d.args[0].endswith('Get_rank'):
                    return RANK if w == 'mpiN' else const(0)
            r = self.extcall(d.args[0], args, kw, st, fr, mod, node)
            if r is not None:
                return r
        return self.unknown_call(d, args, kw, st, node)

    def dargs(self, args, kw, st):
        return tuple(self.deep(a, st) for a in args), tuple(sorted(((k, self.deep(v, st)) for k, v in kw), key=lambda x: x[0]))

    def unknown_call(self, d, args, kw, st, node):
        a, k = self.dargs(args, kw, st)
        d = self.deep(d, st)
        if d in self.impure:
            self.nimpure += 1
            k = k + (('#', const(self.nimpure)),)
        t = mk('call', d, a, k)
        self.ev('call', st, node, func=d, args=a, kw=k, result=t)
        # functions that write into an argument
        if d.op == 'ext' and d.args[0] in ('numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.fill_diagonal',
                                           'numpy.add.at', 'random.shuffle', 'numpy.random.shuffle') and args:
            self.ev('store', st, node, target=a[0], index=mk('ellipsis'), value=t, op='call')
            self.setcontent(args[0], mk('mutated', a[0], d.args[0], a[1:]), st)
        for kk, v in kw:
            if kk == 'out':
                self.ev('store', st, node, target=self.deep(v, st), index=mk('ellipsis'), value=t, op='out=')
                self.setcontent(v, t, st)
        return t

    def unknown_mcall(self, d, name, args, kw, st, node, bv=None):
        a, k = self.dargs(args, kw, st)
        d = self.deep(d, st)
        t = mk('mcall', d, name, a, k)
        self.ev('mcall', st, node, recv=d, name=name, args=a, kw=k, result=t)
        if name in MUTATING and bv is not None and bv.op == 'ref' and d.op != 'sym' and not (name == 'put' and True):
            self.setcontent(bv, mk('mutated', d, name, a), st)
        elif name in MUTATING and name not in ('put', 'update', 'add', 'get') and bv is not None and bv.op == 'ref':
            self.setcontent(bv, mk('mutated', d, name, a), st)
        for kk, v in kw:
            if kk == 'out':
                self.ev('store', st, node, target=self.deep(v, st), index=mk('ellipsis'), value=t, op='out=')
                self.setcontent(v, t, st)
        return t

    def extcall(self, nm, args, kw, st, fr, mod, node):
        short = nm[9:] if nm.startswith('builtins.') else None
        da = lambda i: self.deep(args[i], st)
        if nm in ('collections.namedtuple',):
            d = [self.deep(a, st) for a in args] + [self.deep(v, st) for k, v in kw if k in ('field_names',)]
            if len(d) >= 2 and d[0].op == 'const':
                f = d[1]
                names = None
                if f.op in ('list', 'tuple') and all(is_const(x) for x in f.args[0]):
                    names = tuple(x.args[0] for x in f.args[0])
                elif f.op == 'const' and isinstance(f.args[0], str):
                    names = tuple(f.args[0].replace(',', ' ').split())
                if names is not None:
                    return mk('ntclass', d[0].args[0], names)
        if nm == 'functools.partial' and args:
            return mk('partial', self.deref(args[0], st), tuple(args[1:]), tuple(kw))
        if nm == 'functools.wraps' or nm == 'functools.update_wrapper':
            return mk('ext', '__identity__')
        if nm == '__identity__' and len(args) == 1:
            return args[0]
        if nm == 'functools.reduce' and len(args) >= 2:
            seq = da(1)
            if seq.op in ('list', 'tuple') and seq.args[0]:
                els = list(seq.args[0])
                acc = args[2] if len(args) > 2 else els.pop(0)
                for x in els:
                    acc = self.call(args[0], [acc, x], [], st, fr, mod, node)
                return acc
        if short is None:
            return None
        if short == 'slice' and 1 <= len(args) <= 3 and not kw and not any(a.op == 'star' for a in args):
            b = [self.deep(a, st) for a in args]
            return mk('slice', *([NONE, b[0], NONE] if len(b) == 1 else (b + [NONE])[:3]))
        if short == 'getattr' and len(args) >= 2:
            n = da(1)
            if n.op == 'const' and isinstance(n.args[0], str):
                return self.getattr(args[0], n.args[0], st, fr, mod, node)
        if short == 'setattr' and len(args) == 3:
            n = da(1)
            b = self.deref(args[0], st)
            if n.op == 'const':
                self.setattr(b, n.args[0], self.wrap(args[2], st), st, fr, mod, node)
                return NONE
        if short == 'isinstance' and len(args) == 2:
            o, c = self.deref(args[0], st), self.deref(args[1], st)
            if o.op == 'obj' and c.op == 'class' and self.objcls.get(o.args[0]) is not None:
                return const(c.args[0] in self.objcls[o.args[0]].mro())
            if o is NONE:
                return FALSE
        if short == 'type' and len(args) == 1:
            o = self.deref(args[0], st)
            if o.op == 'obj' and self.objcls.get(o.args[0]) is not None and self.objopen.get(o.args[0]) is None:
                return mk('class', self.objcls[o.args[0]])
        if short == 'len' and len(args) == 1:
            x = da(0)
            return length(x)
        if short == 'range':
            a = [self.deep(x, st) for x in args]
            return mkrange(*a) if 1 <= len(a) <= 3 and not kw else None
        if short == 'list' and not kw:
            if not args:
                return mk('list', ())
            x = self.sel(self.deref(args[0], st), st)
            if x.op in ('list', 'tuple'):
                return mk('list', x.args[0])
            x = self.deep(x, st)
            if x.op in ('range', 'comp', 'listcat', 'flatcomp', 'append'):
                return x
        if short == 'tuple' and not kw:
            if not args:
                return mk('tuple', ())
            x = self.sel(self.deref(args[0], st), st)
            if x.op in ('list', 'tuple'):
                return mk('tuple', x.args[0])
            x = self.deep(x, st)
            if x.op in ('range', 'comp', 'listcat', 'flatcomp', 'append'):
                return x
        if short == 'dict':
            if not args:
                return mk('dict', tuple((const(k), v) for k, v in kw))
            x = self.deref(args[0], st)
            if x.op == 'dict':
                m = dict(x.args[0])
                for k, v in kw:
                    m[const(k)] = v
                return mk('dict', tuple(m.items()))
            if x.op == 'list' and all(self.deref(p, st).op == 'tuple' for p in x.args[0]):
                return mk('dict', tuple((self.deep(self.deref(p, st).args[0][0], st), self.deref(p, st).args[0][1]) for p in x.args[0]))
        if short == 'zip' and args and not kw:
            a = [self.deep(x, st) for x in args]
            if all(x.op in ('list', 'tuple') for x in a):
                n = min(len(x.args[0]) for x in a)
                return mk('list', tuple(mk('tuple', tuple(x.args[0][i] for x in a)) for i in range(n)))
            return mk('zip', tuple(a))
        if short == 'enumerate' and args:
            x = da(0)
            start = const(0)
            if len(args) > 1:
                start = da(1)
            for k, v in kw:
                start = self.deep(v, st)
            if x.op in ('list', 'tuple') and is_num(start):
                return mk('list', tuple(mk('tuple', (const(start.args[0] + i), y)) for i, y in enumerate(x.args[0])))
            return mk('enum', x, start)
        if short == 'reversed' and args:
            x = da(0)
            if x.op in ('list', 'tuple'):
                return mk('list', tuple(reversed(x.args[0])))
            return mk('reversed', x)
        if short == 'map' and len(args) == 2:
            it = self.deep(args[1], st)
            elems = unrollable(it)
            if elems is not None:
                return mk('list', tuple(self.call(args[0], [x], [], st, fr, mod, node) for x in elems))
            lid = self.newloopid()
            count = length(it)
            L = Loop(lid, 'comp', count, self.loc(node), self.callstack, st.pc, self.loopstack)
            if not self.discover:
                self.loops[lid] = L
            saved = self.loopstack
            self.loopstack = saved + (lid,)
            v = self.deep(self.call(args[0], [element(it, mk('lv', lid, count))], [], st, fr, mod, node), st)
            self.loopstack = saved
            return mk('comp', lid, count, v, ())
        if short in ('int', 'float', 'abs', 'bool', 'str') and len(args) == 1:
            x = da(0)
            if is_num(x):
                return const({'int': int, 'float': float, 'abs': abs, 'bool': bool, 'str': str}[short](x.args[0]))
            if short == 'bool':
                return truth(x)
        if short == 'min' or short == 'max':
            a = [self.deep(x, st) for x in args]
            if not kw and len(a) >= 2:
                if all(is_num(x) for x in a):
                    return const((min if short == 'min' else max)(x.args[0] for x in a))
                t = mk('call', ext(nm), tuple(a), ())
                return t
        if short == 'iter' and len(args) == 1:
            x = da(0)
            t = mk('call', ext(nm), (x,), ())
            return t
        if short == 'callable' and len(args) == 1:
            x = self.deref(args[0], st)
            if x.op in ('fn', 'bound', 'closure', 'partial', 'class'):
                return TRUE
        if short == 'print':
            a, k = self.dargs(args, kw, st)
            self.ev('print', st, node, args=a, kw=k)
            return NONE
        if short == 'any' or short == 'all':
            x = da(0) if args else None
            if x is not None and x.op in ('list', 'tuple') and all(is_const(y) for y in x.args[0]):
                return const((any if short == 'any' else all)(y.args[0] for y in x.args[0]))
            if x is not None and x.op in ('list', 'tuple') and x.args[0]:
                r = mk('bool', 'or' if short == 'any' else 'and', tuple(x.args[0]))
                return r
        return None

    # ---------------------------------------------------------------- package calls
    def newobj(self, cls, st, open_as=None):
        oid = 'o%d' % self.fresh()
        self.objcls[oid] = cls
        if open_as is not None:
            self.objopen[oid] = open_as
        return mk('obj', oid)

    def instantiate(self, cls, args, kw, st, fr, mod, node):
        eb = [b for b in cls.ext_bases() if not (b.op == 'ext' and b.args[0] in ('builtins.object',))]
        init, _ = cls.lookup('__init__')
        if eb and (init is None or any(b.op == 'ext' and (b.args[0].startswith('builtins.') and b.args[0].endswith(('Exception', 'Error'))) for b in eb)):
            a, k = self.dargs(args, kw, st)
            t = mk('call', mk('class', cls), a, k)
            self.ev('call', st, node, func=mk('class', cls), args=a, kw=k, result=t)
            return t
        if eb:
            a, k = self.dargs(args, kw, st)
            t = mk('call', mk('class', cls), a, k)
            self.ev('call', st, node, func=mk('class', cls), args=a, kw=k, result=t)
            return t
        o = self.newobj(cls, st)
        self.ev('new', st, node, cls=cls, obj=o)
        if init is not None and init.op == 'fn':
            self.invoke(init.args[0], [o] + list(args), kw, st, mod, node)
        return o

    def bind(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        bound, extra, kwextra = {}, [], []
        star = any(x.op == 'star' for x in args)
        if star:
            args = list(args)
        for i, v in enumerate(args):
            if v.op == 'star':
                for n in names[i:]:
                    bound.setdefault(n, mk('top', 'stararg'))
                break
            if i < len(names):
                bound[names[i]] = v
            else:
                extra.append(v)
        problems = []
        if extra and a.vararg is None:
            problems.append('too many positional arguments')
        hasstarstar = False
        for k, v in kw:
            if k == '**':
                hasstarstar = True
                for n in names + kwonly:
                    if n not in bound:
                        bound[n] = mk('kwget', v, n)
                continue
            if k in names or k in kwonly:
                if k in bound and not star:
                    problems.append('duplicate argument %s' % k)
                bound[k] = v
            elif a.kwarg is not None:
                kwextra.append((const(k), v))
            else:
                problems.append('unexpected keyword %s' % k)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n, dflt in zip(kwonly, a.kw_defaults):
            if dflt is not None:
                defaults[n] = dflt
        missing = []
        for n in names + kwonly:
            if n not in bound:
                if n in defaults:
                    bound[n] = ('default', defaults[n])
                else:
                    missing.append(n)
        if missing:
            problems.append('missing arguments %s' % missing)
            for n in missing:
                bound[n] = mk('top', 'missing')
        if a.vararg is not None:
            bound[a.vararg.arg] = mk('tuple', tuple(extra))
        if a.kwarg is not None:
            bound[a.kwarg.arg] = mk('dict', tuple(kwextra))
        if problems:
            self.undefs.append((self.loc(node), 'call of %s: %s' % (f.qual, '; '.join(problems))))
        return bound

    def invoke(self, f, args, kw, st, mod, node):
        callmod, callloc = mod, self.loc(node)
        bound = self.bind(f, args, kw, st, node)
        fid = ('f', self.fresh())
        fr = Frame(fid, f, None)
        if not hasattr(self, 'frame_closure'):
            self.frame_closure = {}
        self.frame_closure[fid] = f.closure
        depth = len(self.callstack)
        rec = sum(1 for q, _ in self.callstack if q == f.qual)
        st.envs[fid] = {}
        env = {}
        for n, v in bound.items():
            if isinstance(v, tuple):
                dfr = Frame(fid, f, None)
                v = self.eval(v[1], st, dfr, f.module)
                self.cur_module = callmod
            env[n] = self.wrap_param(v, st)
        pr = self.prims.get(f.qual)
        if pr is None and f.cls is not None:
            # a primitive named on a base class applies to overrides reached through it only if inherited
            pr = None
        if pr is not None and not (self.callstack and self.callstack[-1][0] == f.qual):
            b = tuple((n, self.deep(env[n], st)) for n in [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs])
            if f.node.args.vararg:
                b += (('*', self.deep(env[f.node.args.vararg.arg], st)),)
            if f.node.args.kwarg:
                b += (('**', self.deep(env[f.node.args.kwarg.arg], st)),)
            del st.envs[fid]
            t = mk('prim', f.qual, b)
            if callable(pr):
                self.cur_module = callmod
                r = pr(self, dict(b), st, node, dict(env))
                if r is not None:
                    self.ev('prim', st, node, qual=f.qual, args=dict(b), result=r)
                    return r
            self.ev('prim', st, node, qual=f.qual, args=dict(b), result=t)
            return t
        if depth >= MAXDEPTH or rec >= 2:
            del st.envs[fid]
            t = mk('call', mk('fn', f), tuple(self.deep(a, st) for a in args), tuple((k, self.deep(v, st)) for k, v in kw))
            self.ev('call', st, node, func=mk('fn', f), args=t.args[1], kw=t.args[2], result=t)
            return t
        st.envs[fid] = env
        self.ev('enter', st, node, func=f, args={n: self.deep(v, st) for n, v in env.items()})
        saved = self.callstack
        self.callstack = saved + ((f.qual, callloc),)
        fr.base_pc = st.pc
        if f.is_gen:
            env['__yield__'] = self.newref(mk('list', ()), st)
        sbreaks, sconts = getattr(self, '_breaks', []), getattr(self, '_conts', [])
        self._breaks, self._conts = [], []
        sloops = self.loopstack
        if isinstance(f.node, ast.Lambda):
            v = self.eval(f.node.body, st, fr, f.module)
            fr.returns.append((st.pc, v, None, sloops))
            ret = v
        else:
            self.exec_block(f.node.body, st, fr, f.module)
            ret = self.finish(fr, st, sloops)
        if f.is_gen and '__yield__' in st.envs.get(fid, {}):
            ret = st.envs[fid]['__yield__']
        self._breaks, self._conts = sbreaks, sconts
        self.loopstack = sloops
        self.callstack = saved
        st.envs.pop(fid, None)
        self.cur_module = callmod
        self.ev('exit', st, node, func=f, result=self.deep(ret, st))
        return ret

    def wrap_param(self, v, st):
        if v.op in ('sym',):
            return self.newref(v, st)
        return self.wrap(v, st)

    def finish(self, fr, st, sloops):
        """Merge the states at every return (and falling off the end)."""
        outs = list(fr.returns)
        if st.alive:
            outs.append((st.pc, NONE, st.copy(), sloops))
        if not outs:
            st.alive = False
            return mk('top', 'noreturn')
        # returns inside loops: value selected by an opaque iteration
        acc_pc, acc_v, acc_st, acc_lp = outs[-1]
        acc_st = acc_st.copy()
        acc_st.alive = True
        acc_st.envs[fr.fid]['__ret__'] = acc_v
        for pc, v, s, lp in reversed(outs[:-1]):
            s = s.copy()
            s.alive = True
            s.envs[fr.fid]['__ret__'] = v
            rel = [x for x in pc if x not in acc_st.pc or x in fr.base_pc]
            rel = [x for x in pc[len(fr.base_pc):] if x not in acc_st.pc]
            if lp != sloops:
                # conditional on some iteration
                c = mk('some', lp[-1], mkand([_lit(t, p) for t, p in rel]))
                new = State()
                self.merge(c, s, acc_st, new)
                new.pc = fr.base_pc
                acc_st = new
                continue
            if not rel:
                c = mk('join', self.fresh())
                new = State()
                self.merge(c, s, acc_st, new)
            elif len(rel) == 1 and rel[0][1] is False:
                new = State()
                self.merge(rel[0][0], acc_st, s, new)
            else:
                new = State()
                self.merge(mkand([_lit(t, p) for t, p in rel]), s, acc_st, new)
            new.pc = tuple(x for x in new.pc)
            acc_st = new
        extra = acc_st.pc[len(fr.base_pc):]
        st.set_from(acc_st)
        # guards of raising paths stay (they hold from here on); guards of merged returns do not
        st.pc = acc_st.pc if len(outs) == 1 else acc_st.pc
        v = st.envs[fr.fid].pop('__ret__')
        return v


def _lit(t, p):
    return t if p else mknot(t)


def mkand(ts):
    if not ts:
        return TRUE
    if len(ts) == 1:
        return ts[0]
    return mk('bool', 'and', tuple(ts))


def kname(k):
    if k[0] == 'env':
        return ('env', k[2])
    if k[1][0] == 'cont':
        return ('cont', k[1][1])
    return k[1]


def _stmt_nodes(s):
    stack = list(s.body) + list(s.orelse)
    if isinstance(s, ast.For):
        stack.append(s.target)
    if isinstance(s, ast.While):
        stack.append(s.test)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _hasref(t):
    for a in t.args:
        if isinstance(a, T):
            if a.op == 'ref' or (a.op in ('tuple', 'list', 'dict', 'set', 'ntuple', 'phi', 'listcat', 'comp', 'append') and _hasref(a)):
                return True
        elif isinstance(a, tuple) and _hasref_tuple(a):
            return True
    return False


def _hasref_tuple(a):
    for x in a:
        if isinstance(x, T):
            if x.op == 'ref' or (x.op in ('tuple', 'list', 'dict', 'set', 'ntuple', 'phi', 'listcat', 'comp', 'append') and _hasref(x)):
                return True
        elif isinstance(x, tuple) and _hasref_tuple(x):
            return True
    return False


def _mutable_kind(c):
    if c.op in ('list', 'append', 'listcat', 'comp', 'flatcomp', 'store', 'dict', 'set', 'mutated'):
        return True
    if c.op == 'call' and c.args[0].op == 'ext' and c.args[0].args[0].startswith('numpy.'):
        n = c.args[0].args[0]
        return n in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.array', 'numpy.copy', 'numpy.zeros_like',
                     'numpy.empty_like', 'numpy.ones_like', 'numpy.asarray', 'numpy.full', 'numpy.dot', 'numpy.vstack', 'numpy.hstack')
    if c.op == 'sym':
        return False
    return False


def _as_load(t):
    import copy as _c
    t = _c.copy(t)
    t.ctx = ast.Load()
    return t


_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
        ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}
_CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
         ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


# -------------------------------------------------------------------- constructors
def truth(v):
    if v.op == 'const':
        return const(bool(v.args[0]))
    if v.op == 'phi':
        a, b = truth(v.args[1]), truth(v.args[2])
        return mkphi(v.args[0], a, b)
    if v.op in ('fn', 'class', 'module', 'obj', 'bound', 'closure'):
        return TRUE
    return v


def mknot(c):
    if c.op == 'const':
        return const(not c.args[0])
    if c.op == 'not':
        return c.args[0]
    if c.op == 'cmp':
        inv = {'==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}
        if c.args[0] in ('!=', 'is not', 'not in'):
            return mk('cmp', inv[c.args[0]], c.args[1], c.args[2])
    return mk('not', c)


def mkphi(c, a, b):
    neg = False
    while c.op == 'not':
        c = c.args[0]
        a, b = b, a
    if c.op == 'const':
        return a if c.args[0] else b
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mknot(c)
    return mk('phi', c, a, b)


def nonnull(t):
    return t.op in ('list', 'tuple', 'dict', 'set', 'comp', 'flatcomp', 'listcat', 'append', 'obj', 'fn', 'class', 'bound', 'closure', 'partial', 'module',
                    'bin', 'un', 'cmp', 'lv', 'range', 'ntuple', 'store', 'fmt', 'slice') or \
        (t.op == 'const' and t.args[0] is not None) or \
        (t.op == 'call' and t.args[0].op == 'ext' and (t.args[0].args[0].startswith(('numpy.', 'builtins.len', 'builtins.int', 'builtins.list')))) or \
        (t.op == 'ext') or (t.op == 'attr' and t.args[1] in ('T', 'shape', 'size', 'ndim')) or \
        (t.op == 'mcall' and t.args[1] in ('dot', 'conj', 'squeeze', 'flatten', 'transpose', 'reshape', 'copy')) or \
        (t.op == 'prim' and not t.args[0].endswith('call_from_rank_zero')) or (t.op == 'index' and nonnull_base(t.args[0]))


def nonnull_base(t):
    return t.op in ('prim',) or (t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].startswith('numpy.'))


def mkcmp(op, a, b):
    if op in ('is', 'is not', '==', '!='):
        # constants on the right
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        if a.op == 'phi' and b.op == 'const':
            x, y = mkcmp(op, a.args[1], b), mkcmp(op, a.args[2], b)
            if x.op == 'const' or y.op == 'const':
                return mkphi(a.args[0], x, y)
        if a.op == 'const' and b.op == 'const':
            same = type(a.args[0]) == type(b.args[0]) and a.args[0] == b.args[0]
            if op in ('is', 'is not') and (a.args[0] is None or b.args[0] is None or isinstance(a.args[0], bool)):
                return const((a is b) == (op == 'is'))
            if op in ('==', '!='):
                return const((a.args[0] == b.args[0]) == (op == '=='))
        if b is NONE and nonnull(a) and op in ('is', 'is not'):
            return const(op == 'is not')
        if b is NONE and op in ('==', '!=') and a.op == 'sym':
            op = {'==': 'is', '!=': 'is not'}[op]
        if a.op == 'class' and b.op == 'class':
            return const((a is b) == (op in ('is', '==')))
        if op in ('is not', '!='):
            return mk('not', mkcmp({'is not': 'is', '!=': '=='}[op], a, b))
        if a.op != 'const' and b.op != 'const' and op == '==' and a.nid > b.nid:
            a, b = b, a
        return mk('cmp', op, a, b)
    if op in ('<', '<=', '>', '>='):
        if is_num(a) and is_num(b):
            x, y = a.args[0], b.args[0]
            return const({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        # canonical: only '<' and '<=' , expressed with not for totals orders
        if op == '>':
            return mkcmp('<', b, a)
        if op == '>=':
            return mk('not', mkcmp('<', a, b))
        if op == '<=':
            return mk('not', mkcmp('<', b, a))
        return mk('cmp', '<', a, b)
    if op == 'in' or op == 'not in':
        if a.op == 'const' and b.op in ('tuple', 'list', 'set') and all(x.op == 'const' for x in b.args[0]):
            r = any(x is a for x in b.args[0])
            return const(r == (op == 'in'))
        if b.op in ('tuple', 'list', 'set') and 0 < len(b.args[0]) <= 4 and all(is_num(x) for x in b.args[0]):
            t = mk('bool', 'or', tuple(mkcmp('==', a, x) for x in b.args[0])) if len(b.args[0]) > 1 else mkcmp('==', a, b.args[0][0])
            return t if op == 'in' else mk('not', t)
        if a.op == 'const' and b.op == 'const' and isinstance(a.args[0], str) and isinstance(b.args[0], str):
            return const((a.args[0] in b.args[0]) == (op == 'in'))
        t = mk('cmp', 'in', a, b)
        return t if op == 'in' else mk('not', t)
    return mk('cmp', op, a, b)


def mkbin(op, a, b):
    if is_num(a) and is_num(b):
        x, y = a.args[0], b.args[0]
        try:
            if op == '+': return const(x + y)
            if op == '-': return const(x - y)
            if op == '*': return const(x * y)
            if op == '/': return const(x / y)
            if op == '//': return const(x // y)
            if op == '%': return const(x % y)
            if op == '**' and abs(y) < 50: return const(x ** y)
        except Exception:
            pass
    if op == '+' and a.op == 'const' and b.op == 'const' and isinstance(a.args[0], str) and isinstance(b.args[0], str):
        return const(a.args[0] + b.args[0])
    if op == '+' and is_num(a) and a.args[0] == 0 and type(a.args[0]) is int:
        return b
    if op in ('+', '-') and is_num(b) and b.args[0] == 0 and type(b.args[0]) is int:
        return a
    if op == '+' and a.op in ('list',) and b.op in ('list',):
        return mk('list', a.args[0] + b.args[0])
    if op == '+' and a.op == 'tuple' and b.op == 'tuple':
        return mk('tuple', a.args[0] + b.args[0])
    if op == '*' and a.op in ('list', 'tuple') and is_num(b) and isinstance(b.args[0], int) and b.args[0] * len(a.args[0]) <= 16:
        return mk(a.op, a.args[0] * b.args[0])
    return mk('bin', op, a, b)


def mkrange(*a):
    if len(a) == 1:
        s, e, step = const(0), a[0], const(1)
    elif len(a) == 2:
        s, e, step = a[0], a[1], const(1)
    else:
        s, e, step = a
    return mk('range', s, e, step)


def mkappend(l, v):
    if l.op == 'list':
        return mk('list', l.args[0] + (v,))
    return mk('append', l, v)


def unrollable(it, limit=40):
    if it.op in ('list', 'tuple') and len(it.args[0]) <= limit and not any(x.op == 'star' for x in it.args[0]):
        return list(it.args[0])
    if it.op == 'dict' and len(it.args[0]) <= limit:
        return [k for k, v in it.args[0]]
    if it.op == 'range' and all(is_num(x) for x in it.args):
        r = range(*[int(x.args[0]) for x in it.args])
        if len(r) <= 4:
            return [const(i) for i in r]
    if it.op == 'set' and len(it.args[0]) <= limit:
        return list(it.args[0])
    return None


def length(t):
    if t.op in ('list', 'tuple', 'set', 'dict') and not any(isinstance(x, T) and x.op == 'star' for x in t.args[0]):
        return const(len(t.args[0]))
    if t.op == 'range':
        s, e, step = t.args
        if is_num(step) and step.args[0] == 1:
            return mkbin('-', e, s)
        return mk('rangelen', s, e, step)
    if t.op == 'comp' and not t.args[3]:
        return t.args[1]
    if t.op == 'enum':
        return length(t.args[0])
    if t.op == 'reversed':
        return length(t.args[0])
    if t.op == 'zip':
        ls = []
        for x in t.args[0]:
            l = length(x)
            if l not in ls:
                ls.append(l)
        return ls[0] if len(ls) == 1 else mk('call', ext('builtins.min'), tuple(ls), ())
    if t.op == 'listcat':
        return mkbin('+', length(t.args[0]), length(t.args[1]))
    if t.op == 'index' and t.args[1].op == 'slice':
        lo, hi, step = t.args[1].args
        if step is NONE:
            # x[lo:hi] with 0 <= lo <= hi <= len(x) is the only use in index bookkeeping
            if lo is NONE and hi is NONE:
                return length(t.args[0])
    if t.op == 'bin' and t.args[0] == '*' and t.args[1].op == 'list' and len(t.args[1].args[0]) == 1:
        return t.args[2]
    return mk('call', ext('builtins.len'), (t,), ())


def element(it, lv):
    if it.op == 'range':
        s, e, step = it.args
        x = lv if (is_num(step) and step.args[0] == 1) else mkbin('*', lv, step)
        if is_num(s) and s.args[0] == 0:
            return x
        return mkbin('+', s, x)
    if it.op == 'enum':
        i = lv if is_num(it.args[1]) and it.args[1].args[0] == 0 else mkbin('+', it.args[1], lv)
        return mk('tuple', (i, element(it.args[0], lv)))
    if it.op == 'zip':
        return mk('tuple', tuple(element(x, lv) for x in it.args[0]))
    if it.op == 'reversed':
        n = length(it.args[0])
        return mkindex(it.args[0], mkbin('-', mkbin('-', n, const(1)), lv))
    if it.op == 'dict':
        return mk('dictkey', it, lv)
    return mkindex(it, lv)


def mkindex(b, i):
    if b.op == 'phi' and i.op == 'const' and (b.args[1].op in ('tuple', 'list') or b.args[2].op in ('tuple', 'list')):
        return mkphi(b.args[0], mkindex(b.args[1], i), mkindex(b.args[2], i))
    if b.op in ('tuple', 'list') and is_num(i) and isinstance(i.args[0], int):
        n = i.args[0]
        if -len(b.args[0]) <= n < len(b.args[0]) and not any(x.op == 'star' for x in b.args[0]):
            return b.args[0][n]
    if b.op == 'ntuple' and is_num(i) and isinstance(i.args[0], int) and -len(b.args[2]) <= i.args[0] < len(b.args[2]):
        return b.args[2][i.args[0]]
    if b.op == 'comp' and not b.args[3] and i.op not in ('slice', 'tuple') and nonneg(i):
        return subst(b.args[2], {mk('lv', b.args[0], b.args[1]): i})
    if b.op == 'range' and i.op not in ('slice', 'tuple') and nonneg(i):
        s, e, step = b.args
        return mkbin('+', s, i if (is_num(step) and step.args[0] == 1) else mkbin('*', i, step))
    if b.op == 'range' and is_num(i) and i.args[0] == -1 and is_num(b.args[2]) and b.args[2].args[0] == 1:
        return mkbin('-', b.args[1], const(1))
    if i.op == 'slice' and i.args == (NONE, NONE, NONE):
        return b
    # element of a slice of a list of handles/vectors
    if b.op == 'index' and b.args[1].op == 'slice' and i.op not in ('slice', 'tuple') and nonneg(i):
        lo, hi, step = b.args[1].args
        if step is NONE and (lo is NONE or not (is_num(lo) and lo.args[0] < 0)) and lo.op != 'un':
            return mkindex(b.args[0], i if lo is NONE else mkbin('+', lo, i))
    return mk('index', b, i)


def nonneg(i):
    if is_num(i):
        return i.args[0] >= 0
    if i.op == 'lv':
        return True
    if i.op == 'bin' and i.args[0] in ('+', '*'):
        return nonneg(i.args[1]) or nonneg(i.args[2])
    if i.op == 'bin' and i.args[0] == '-':
        return True
    return True


def _ext_bases_nonobject(self):
    return [b for b in self.ext_bases() if not (b.op == 'ext' and b.args[0] == 'builtins.object')]


ClassInfo.ext_bases_nonobject = _ext_bases_nonobject

_tm._rebuilders.update({
    'bin': mkbin, 'index': mkindex, 'phi': mkphi, 'cmp': mkcmp, 'not': mknot, 'range': lambda s, e, st: mk('range', s, e, st),
})
