"""S09: names, attributes, calls and documented arguments."""
import ast
import builtins
import json
import os
import re
import string
import subprocess
from ..common import *
from ..report import prop
from .handles import functions, extname, parents, dotted, enclosing
from .effects import sites, resolve_name, locals_of, qual, module_vars

LIBPY = '/opt/venv/bin/python'


@prop('S09', 'name resolution, definite-assignment and call-binding analysis of every function, with abstract interpretation for the paths, and the installed libraries\' symbol tables for external names; documented argument names against signatures',
      'Every function and call site whose callee can be resolved; dynamically computed names and calls through user objects are outside. External names are looked up in the installed numpy, scipy and standard library.')
def s09(c):
    c.rule('export', 'every name imported from a module of the package exists there')
    c.rule('name', 'every name used is defined on every path that reaches its use')
    c.rule('attribute', 'every attribute of self that is read is a method or assigned somewhere in the class')
    c.rule('binding', 'every call of a package function passes arguments its signature accepts')
    c.rule('external', 'every external name exists and accepts the arguments passed')
    c.rule('format', 'every string is formatted with as many values as it has places')
    c.rule('documented', 'every documented argument of a public function or class is accepted by it')
    for w in ('nompi', 'mpiN'):
        pkg = package(w)
        for f in functions(pkg):
            c.note('functions')
            c.ob('%s [%s]' % (f.qual, w), interp_names, c, pkg, f)
    pkg = package('nompi')
    for m in sorted(pkg.modules.values(), key=lambda m: m.name):
        c.ob('imports of %s' % m.name, imports, c, pkg, m)
        c.ob('names of %s' % m.name, plain_names, c, pkg, m)
        c.ob('self attributes of %s' % m.name, self_attrs, c, pkg, m)
        c.ob('formats of %s' % m.name, formats, c, pkg, m)
        c.ob('calls in %s' % m.name, bindings, c, pkg, m)
    c.ob('external names', externals, c, pkg)
    c.ob('documented arguments', documented, c, pkg)


# ---------------------------------------------------------------- paths
def leaves(t):
    return {x for x in walk(t) if x.op in ('sym', 'attr', 'index', 'mu', 'loopout', 'lv', 'cattr', 'mcall') or (x.op == 'call' and x.args[0].op not in ('ext', 'fn', 'class'))}


def interp_names(c, pkg, f):
    r = run_any(pkg, f)
    und = None
    for u in r.an.undefs:
        loc, msg = u[0], u[1]
        if 'may be undefined' in msg and len(u) > 3:
            guard, pc = u[2], u[3]
            # a variable defined under one condition and used under others: the path exists if the other
            # conditions have nothing to do with the first
            gl = leaves(r.deep(guard))
            if gl and not any(gl & leaves(r.deep(k)) or any(x in set(walk(r.deep(k))) for x in [guard]) for k, p in pc) and \
                    not any(x.op in ('loopout', 'mu', 'lv') for x in walk(r.deep(guard))) and plain(gl):
                c.violate('name', f.qual, loc, msg)
                return False
            und = '%s: %s' % (loc, msg)
        elif 'attribute' in msg and 'of None' in msg:
            und = '%s: %s' % (loc, msg)
        elif 'on this path' in msg:
            und = '%s: %s' % (loc, msg)
        else:
            c.violate('binding' if msg.startswith('call of') else 'name', f.qual, loc, msg)
            return False
    if und:
        return 'not decided by this rule: ' + und
    return ''


def plain(ls):
    return all(x.op in ('sym', 'attr') for x in ls)


# ---------------------------------------------------------------- imports
def imports(c, pkg, m):
    n = 0
    root = os.path.dirname(os.path.join(pkg.root, m.path)) if hasattr(pkg, 'root') else None
    for s in ast.walk(m.tree):
        if not isinstance(s, ast.ImportFrom):
            continue
        if not (s.level or (s.module or '').split('.')[0] == 'modred'):
            continue
        base = (s.module or '')
        if not s.level:
            base = base.partition('.')[2]
        target = pkg.modules.get(base or '__init__')
        for a in s.names:
            if a.name == '*':
                continue
            n += 1
            if target is not None and base:
                if target.env and a.name not in target.env:
                    c.violate('export', '%s.%s' % (m.name, a.name), '%s:%d' % (m.path, s.lineno), 'module %s has no name %s' % (base, a.name))
                    return False
            elif not base:
                init = pkg.modules.get('__init__')
                d = os.path.join(REPO, 'modred')
                if a.name not in pkg.modules and not os.path.exists(os.path.join(d, a.name)) and not os.path.exists(os.path.join(d, a.name + '.py')) and \
                        not (init is not None and init.env and a.name in init.env):
                    c.violate('export', '%s.%s' % (m.name, a.name), '%s:%d' % (m.path, s.lineno), 'the package has no %s' % a.name)
                    return False
            else:
                p = os.path.join(REPO, 'modred', *base.split('.'))
                if not os.path.exists(p) and not os.path.exists(p + '.py'):
                    c.violate('export', '%s.%s' % (m.name, base), '%s:%d' % (m.path, s.lineno), 'the package has no module %s' % base)
                    return False
    c.note('imported names', n)
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets) and isinstance(s.value, (ast.List, ast.Tuple)):
            for x in s.value.elts:
                if isinstance(x, ast.Constant) and m.env and x.value not in m.env and x.value not in pkg.modules:
                    c.violate('export', '%s.%s' % (m.name, x.value), '%s:%d' % (m.path, s.lineno), '__all__ names %s, which does not exist' % x.value)
                    return False
    return '%d names' % n


# ---------------------------------------------------------------- names, flow-insensitive and definite assignment
def bound_in(fn):
    """Names bound in a function's own scope (comprehension variables included)."""
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    out.add(x.asname or x.name.split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def plain_names(c, pkg, m):
    par = parents(m.tree)
    glob = set(m.env or ()) | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__'} | set(module_vars(m))
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            glob.add(n.name) if isinstance(par.get(n), (ast.Module, ast.If, ast.Try)) else None
        if isinstance(n, ast.Global):
            glob |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)) and enclosing(n, par, (ast.FunctionDef,)) is None:
            glob |= {x.asname or x.name.split('.')[0] for x in n.names}
    if any(isinstance(n, ast.ImportFrom) and any(x.name == '*' for x in n.names) for n in ast.walk(m.tree)):
        raise Undecided('star import')
    cnt = 0
    cache = {}
    for n in ast.walk(m.tree):
        if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
            continue
        cnt += 1
        if n.id in glob:
            continue
        x, ok, fn0 = n, False, None
        while x in par and not ok:
            x = par[x]
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                fn0 = fn0 or x
                if x not in cache:
                    cache[x] = bound_in(x)
                ok = n.id in cache[x]
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                ok = any(isinstance(y, ast.Name) and y.id == n.id for g in x.generators for y in ast.walk(g.target))
            elif isinstance(x, ast.ClassDef) and fn0 is None:
                ok = any(isinstance(y, ast.Name) and y.id == n.id and isinstance(y.ctx, ast.Store) for s in x.body for y in ast.walk(s)) or \
                    any(isinstance(s, ast.FunctionDef) and s.name == n.id for s in x.body)
            elif isinstance(x, ast.Try) and any(h.type is not None and 'NameError' in ast.dump(h.type) for h in x.handlers):
                ok = True
        if not ok:
            fn = enclosing(n, par, (ast.FunctionDef,))
            c.violate('name', qual(m, fn, par), '%s:%d' % (m.path, n.lineno), 'the name %s is not defined anywhere' % n.id)
            return False
    c.note('name uses', cnt)
    # definite assignment: a local certainly unassigned at its use
    for fn in ast.walk(m.tree):
        if isinstance(fn, ast.FunctionDef):
            bad = Definite(fn).run()
            if bad:
                c.violate('name', qual(m, fn, par), '%s:%d' % (m.path, bad.lineno), 'the local name %s is used before it is assigned on every path' % bad.id)
                return False
    return '%d uses' % cnt


class Definite(object):
    """Names possibly assigned at each point; a use of a local that cannot have been assigned is an error."""

    def __init__(self, fn):
        self.fn = fn
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        own = []

        def scan(b):
            for s in b:
                own.append(s)
        self.locals = set()
        gl = set()

        def names(n, top=True):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
                self.locals.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                return
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                gl.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals.update(x.asname or x.name.split('.')[0] for x in n.names)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            for k in ast.iter_child_nodes(n):
                names(k, False)
        for s in fn.body:
            names(s, False)
        self.locals -= gl
        self.locals -= self.params
        self.bad = None

    def run(self):
        self.block(self.fn.body, set())
        return self.bad

    def use(self, e, may):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return
        comp = {y.id for n in ast.walk(e) if isinstance(n, ast.comprehension) for y in ast.walk(n.target) if isinstance(y, ast.Name)}
        wal = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in may and n.id not in comp and n.id not in wal:
                self.bad = self.bad or n

    def targets(self, e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def assigned_in(self, b):
        return {n.id for s in b for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
               {n.name for s in b for n in ast.walk(s) if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | \
               {x.asname or x.name.split('.')[0] for s in b for n in ast.walk(s) if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names}

    def block(self, b, may):
        for s in b:
            may = self.stmt(s, may)
        return may

    def stmt(self, s, may):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return may | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return may | {x.asname or x.name.split('.')[0] for x in s.names}
        if isinstance(s, ast.If):
            self.use(s.test, may)
            w = {n.target.id for n in ast.walk(s.test) if isinstance(n, ast.NamedExpr)}
            return self.block(s.body, may | w) | self.block(s.orelse, may | w)
        if isinstance(s, (ast.For, ast.While)):
            self.use(s.iter if isinstance(s, ast.For) else s.test, may | (self.assigned_in(s.body) if isinstance(s, ast.While) else set()))
            inner = may | self.assigned_in(s.body) | (self.targets(s.target) if isinstance(s, ast.For) else set())
            # first round: what can have been assigned before the loop or earlier in this body
            return self.block(s.orelse, self.block(s.body, inner))
        if isinstance(s, ast.Try):
            m = self.block(s.body, may)
            hs = [self.block(h.body, m | ({h.name} if h.name else set())) for h in s.handlers]
            m2 = self.block(s.orelse, m)
            for h in hs:
                m2 = m2 | h
            return self.block(s.finalbody, m2)
        if isinstance(s, (ast.With,)):
            for i in s.items:
                self.use(i.context_expr, may)
                if i.optional_vars is not None:
                    may = may | self.targets(i.optional_vars)
            return self.block(s.body, may)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.use(t, may)
            return may
        if isinstance(s, ast.AugAssign):
            self.use(s.value, may)
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in may:
                self.bad = self.bad or s.target
            return may
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Break, ast.Continue)):
            return may
        if isinstance(s, ast.Assign):
            self.use(s.value, may)
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in may:
                        self.bad = self.bad or n
            return may | {x for t in s.targets for x in self.targets(t)}
        self.use(s, may)
        return may | self.targets(s)


# ---------------------------------------------------------------- attributes of self
DYNAMIC = ('setattr', '__dict__', '__getattr__', '__getattribute__', 'vars')


def class_of(pkg, m, cd):
    v = (m.env or {}).get(cd.name)
    return v.args[0] if v is not None and v.op == 'class' and v.args[0].node is cd else None


def all_classes(pkg):
    out = []
    for m in pkg.modules.values():
        for v in (m.env or {}).values():
            if v.op == 'class' and v.args[0] not in out:
                out.append(v.args[0])
    return out


def by_helpers(pkg):
    """Attributes that functions outside the classes assign on the objects they are given."""
    out = set()
    for m in pkg.modules.values():
        for g in m.tree.body:
            if isinstance(g, ast.FunctionDef):
                ps = {a.arg for a in g.args.posonlyargs + g.args.args + g.args.kwonlyargs}
                out |= {x.attr for x in ast.walk(g) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ps}
    return out


def self_attrs(c, pkg, m):
    n = 0
    for cd in ast.walk(m.tree):
        if not isinstance(cd, ast.ClassDef):
            continue
        cls = class_of(pkg, m, cd)
        if cls is None:
            continue
        fam = [k for k in all_classes(pkg) if cls in k.mro()]
        fam = list({x: 1 for k in fam + [cls] for x in k.mro()})
        if any(not hasattr(k, 'node') for k in fam):
            continue
        ext = []
        for k in fam:
            for b in k.node.bases:
                if dotted(b) in ('object', 'Exception'):
                    continue
                v = (k.module.env or {}).get(dotted(b) or '')
                if v is None or v.op != 'class':
                    ext.append(b)
        if ext or any(isinstance(x, (ast.Name, ast.Attribute)) and (getattr(x, 'id', None) in DYNAMIC or getattr(x, 'attr', None) in DYNAMIC)
                      for k in fam for x in ast.walk(k.node)):
            continue
        have = set(dir(object)) | {'__dict__', '__class__'} | by_helpers(pkg)
        for k in fam:
            for s in k.node.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    have.add(s.name)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(s, ast.FunctionDef):
                        have.add(x.id)
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        have.add(x.attr)
        for g in cd.body:
            if not isinstance(g, ast.FunctionDef) or not g.args.args:
                continue
            me = g.args.args[0].arg
            if any((dotted(d) or '') in ('staticmethod', 'classmethod') for d in g.decorator_list):
                continue
            for x in ast.walk(g):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    n += 1
                    if x.attr not in have:
                        c.violate('attribute', '%s.%s.%s' % (m.name, cd.name, g.name), '%s:%d' % (m.path, x.lineno),
                                  'self.%s is read but never assigned in %s' % (x.attr, cd.name))
                        return False
        if unconstructed(c, cls, have, fam):
            return False
    c.note('reads of self attributes', n)
    return '%d reads' % n


def unconstructed(c, cls, have, fam):
    """A class with a constructor of its own that does not call those of its bases lacks what only they assign."""
    own = {}
    for k in cls.mro():
        for s in k.node.body:
            if isinstance(s, ast.FunctionDef):
                own.setdefault(s.name, (s, k))
    init = own.get('__init__')
    if init is None or init[1] is not cls:
        return False
    # any mention of a base constructor, or of super, counts as calling all of them
    for k in cls.mro():
        for s in k.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == '__init__' and k is cls and any(
                    isinstance(x, ast.Attribute) and x.attr == '__init__' or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s)):
                return False
    lost = [s for k in cls.mro() if k is not cls for s in k.node.body if isinstance(s, ast.FunctionDef) and s.name == '__init__']
    stores = lambda s: {x.attr for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    only = set().union(*[stores(s) for s in lost]) if lost else set()
    for k in fam:
        for s in k.node.body:
            if s not in lost:
                only -= stores(s) | ({s.name} if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else set())
                only -= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(s, ast.FunctionDef)}
    only -= by_helpers(package("nompi"))
    for name, (g, k) in sorted(own.items()):
        if not g.args.args or name == '__init__' and k is not cls:
            continue
        me = g.args.args[0].arg
        for x in ast.walk(g):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr in only:
                c.violate('attribute', '%s.%s' % (cls.qual, name), '%s:%d' % (k.module.path, x.lineno),
                          'self.%s is read but on objects of %s nothing assigns it: only the constructor of a base class does, which is not called' % (x.attr, cls.name))
                return True
    return False




# ---------------------------------------------------------------- formats
def formats(c, pkg, m):
    n = 0
    par = parents(m.tree)
    for x in ast.walk(m.tree):
        want = got = None
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
            s = x.left.value.replace('%%', '')
            specs = re.findall(r'%(\(\w+\))?[#0\- +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z])', s)
            if any(k[0] for k in specs) or any('*' in k[1:3] for k in specs):
                continue
            want = len(specs)
            if isinstance(x.right, ast.Tuple):
                if any(isinstance(e, ast.Starred) for e in x.right.elts):
                    continue
                got = len(x.right.elts)
            elif isinstance(x.right, (ast.Constant, ast.BinOp, ast.JoinedStr)) or want == 0:
                got = 1
            else:
                continue            # may itself be a tuple
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and isinstance(x.func.value, ast.Constant) \
                and isinstance(x.func.value.value, str):
            if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                continue
            n += 1
            try:
                flds = [f for f in string.Formatter().parse(x.func.value.value) if f[1] is not None]
            except ValueError as e:
                c.violate('format', '%s:%s' % (m.name, x.func.value.value[:30]), '%s:%d' % (m.path, x.lineno), 'bad format string: %s' % e)
                return False
            auto = sum(1 for f in flds if f[1].split('.')[0].split('[')[0] == '')
            num = [int(f[1].split('.')[0].split('[')[0]) for f in flds if f[1].split('.')[0].split('[')[0].isdigit()]
            named = {f[1].split('.')[0].split('[')[0] for f in flds} - {''} - {str(k) for k in num}
            if auto > len(x.args) or (num and max(num) >= len(x.args)) or named - {k.arg for k in x.keywords}:
                fn = enclosing(x, par, (ast.FunctionDef,))
                c.violate('format', qual(m, fn, par), '%s:%d' % (m.path, x.lineno), 'the format string has places without values')
                return False
            continue
        else:
            continue
        n += 1
        if want != got:
            fn = enclosing(x, par, (ast.FunctionDef,))
            c.violate('format', qual(m, fn, par), '%s:%d' % (m.path, x.lineno), 'the format string has %d places and gets %d values' % (want, got))
            return False
    c.note('formatted strings', n)
    return '%d strings' % n


# ---------------------------------------------------------------- bindings
def accepts(a, npos, kws, skip):
    """Problem of calling a function with ast.arguments a, or ''."""
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwo = [x.arg for x in a.kwonlyargs]
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments, gets %d' % (len(pos), npos)
    bound = set(pos[:npos])
    for k in kws:
        if k in bound:
            return 'argument %s is given twice' % k
        if k not in pos and k not in kwo and not a.kwarg:
            return 'has no argument %s' % k
        bound.add(k)
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd <= len(pos) else []
    req += [x for x, d in zip(kwo, a.kw_defaults) if d is None]
    miss = [x for x in req if x not in bound]
    return 'is not given %s' % ', '.join(miss) if miss else ''


def attr_types(pkg, cls):
    """attr -> class, for attributes of self only ever assigned one kind of package object."""
    out = {}
    for k in [cls] + [x for x in all_classes(pkg) if cls in x.mro() or x in cls.mro()]:
        for n in ast.walk(k.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        v = None
                        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                            w = (k.module.env or {}).get(n.value.func.id)
                            v = w.args[0] if w is not None and w.op == 'class' else None
                        out.setdefault(t.attr, set()).add(v)
    return {a: next(iter(v)) for a, v in out.items() if len(v) == 1 and None not in v}


def bindings(c, pkg, m):
    n = 0
    par = parents(m.tree)
    loc = {}
    for x in ast.walk(m.tree):
        if not isinstance(x, ast.Call) or any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
            continue
        fn = enclosing(x, par, (ast.FunctionDef,))
        if fn not in loc:
            loc[fn] = bound_in(fn) if fn is not None else set()
        target, skip, nm = None, 0, None
        f = x.func
        cd = enclosing(x, par, (ast.ClassDef,))
        cls = class_of(pkg, m, cd) if cd is not None else None

        def of_term(v):
            if v is None:
                return None, 0, None
            if v.op == 'fn':
                return v.args[0].node, 0, v.args[0].qual
            if v.op == 'class':
                w, _ = v.args[0].lookup('__init__')
                if w is not None and w.op == 'fn':
                    return w.args[0].node, 1, v.args[0].qual
            return None, 0, None
        if isinstance(f, ast.Name) and f.id not in loc[fn]:
            target, skip, nm = of_term((m.env or {}).get(f.id))
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in loc[fn]:
            v = (m.env or {}).get(f.value.id)
            if v is not None and v.op == 'module':
                e = v.args[0].env or {}
                if f.attr not in e and f.attr not in ('__name__', '__file__', '__doc__'):
                    c.violate('name', qual(m, fn, par), '%s:%d' % (m.path, x.lineno), 'module %s has no name %s' % (v.args[0].name, f.attr))
                    return False
                target, skip, nm = of_term(e.get(f.attr))
            elif v is not None and v.op == 'class':
                w, _ = v.args[0].lookup(f.attr)
                if w is not None and w.op == 'fn' and w.args[0].kind == 'function':
                    target, skip, nm = w.args[0].node, 0, w.args[0].qual
        elif isinstance(f, ast.Attribute) and cls is not None:
            k = None
            if isinstance(f.value, ast.Name) and f.value.id == 'self':
                k = cls
            elif isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id == 'self':
                k = attr_types(pkg, cls).get(f.value.attr)
                if k is not None and not k.lookup(f.attr)[0] and not any(
                        isinstance(y, ast.Attribute) and y.attr == f.attr and isinstance(y.ctx, ast.Store) for b in k.mro() for y in ast.walk(b.node)):
                    c.violate('attribute', qual(m, fn, par), '%s:%d' % (m.path, x.lineno), '%s has no method %s' % (k.qual, f.attr))
                    return False
            if k is not None:
                w, _ = k.lookup(f.attr)
                # overridden by an instance attribute?
                inst = any(isinstance(y, ast.Attribute) and y.attr == f.attr and isinstance(y.ctx, ast.Store) for b in k.mro() for y in ast.walk(b.node))
                if w is not None and w.op == 'fn' and w.args[0].kind == 'function' and not inst:
                    target, skip, nm = w.args[0].node, 1, w.args[0].qual
        if target is None or isinstance(target, ast.Lambda) or getattr(target, 'decorator_list', None):
            continue
        n += 1
        p = accepts(target.args, len(x.args), [k.arg for k in x.keywords], skip)
        if p:
            c.violate('binding', qual(m, fn, par), '%s:%d' % (m.path, x.lineno), '%s %s' % (nm, p))
            return False
    c.note('bound call sites', n)
    return '%d calls' % n


# ---------------------------------------------------------------- external names
PROBE = r'''
import sys, json, importlib, inspect
out = []
for q, npos, kws, isref in json.load(sys.stdin):
    parts = q.split('.')
    obj, i, ok = None, 0, True
    try:
        for k in range(len(parts), 0, -1):
            try:
                obj = importlib.import_module('.'.join(parts[:k])); i = k; break
            except ImportError:
                continue
        else:
            continue
        for p in parts[i:]:
            if not hasattr(obj, p):
                ok = False
                break
            obj = getattr(obj, p)
        if not ok:
            out.append([q, 'does not exist', npos, kws]); continue
        if isref:
            continue
        try:
            sig = inspect.signature(obj)
        except (ValueError, TypeError):
            continue
        try:
            sig.bind(*([None] * npos), **{k: None for k in kws})
        except TypeError as e:
            out.append([q, str(e), npos, kws])
    except Exception:
        continue
json.dump(out, sys.stdout)
'''
LIBS = ('numpy', 'scipy', 'os', 'sys', 'copy', 'time', 'pickle', 'inspect', 'socket', 'codecs', 'collections', 'itertools', 'functools', 'math', 'warnings', 're', 'operator')


def externals(c, pkg):
    if not os.path.exists(LIBPY):
        raise Undecided('no interpreter with the libraries')
    want, sites_ = [], {}
    for m, fn, loc, n, par in sites(pkg):
        q = None
        if isinstance(n, ast.Call):
            q = resolve_name(m, n.func, loc)
            if q is None or q.split('.')[0] not in LIBS or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            key = [q, len(n.args), sorted(k.arg for k in n.keywords), False]
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not (isinstance(par.get(n), (ast.Attribute, ast.Call)) and getattr(par[n], 'func', n) is n):
            q = resolve_name(m, n, loc)
            if q is None or q.split('.')[0] not in LIBS:
                continue
            if isinstance(par.get(n), ast.Attribute):
                continue
            key = [q, 0, [], True]
        else:
            continue
        if any(isinstance(x, ast.Try) for x in ancestors(n, par)):
            continue
        k = json.dumps(key)
        if k not in sites_:
            want.append(key)
        sites_.setdefault(k, (qual(m, fn, par), '%s:%d' % (m.path, n.lineno)))
    c.note('external names and calls', len(want))
    env = {'PATH': '/usr/bin:/bin', 'HOME': '/tmp', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1'}
    try:
        p = subprocess.run([LIBPY, '-I', '-c', PROBE], input=json.dumps(want), capture_output=True, text=True, timeout=120, env=env, cwd='/')
        bad = json.loads(p.stdout)
    except Exception as e:
        raise Undecided('library lookup failed: %r' % (e,))
    for q, why, npos, kws in bad:
        for ref in (False, True):
            s = sites_.get(json.dumps([q, npos, kws, ref]))
            if s:
                c.violate('external', s[0], s[1], '%s: %s' % (q, why))
                break
    return '%d names and calls' % len(want)


def ancestors(n, par):
    while n in par:
        n = par[n]
        yield n


# ---------------------------------------------------------------- documentation
def documented(c, pkg):
    pub = []
    for v in exported(pkg).values():
        if v.op == 'fn' and v.args[0] not in pub:
            pub.append(v.args[0])
        elif v.op == 'class':
            for n, g in methods(v.args[0]).items():
                if (not n.startswith('_') or n == '__init__') and g not in pub:
                    pub.append(g)
    tot = 0
    for f in sorted(pub, key=lambda f: f.qual):
        a = f.node.args
        if a.kwarg:
            continue
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg,) if y]}
        d = ast.get_docstring(f.node) or (ast.get_docstring(f.cls.node) if f.name == '__init__' and f.cls is not None else None)
        cur = None
        for line in (d or '').split('\n'):
            h = re.match(r'\s*(\w+)\s*:\s*$', line)
            if h:
                cur = h.group(1)
            k = re.match(r'\s+((?:``\*{0,2}\w+``(?:,| and)?\s*)+):', line)
            if k and cur in ('Args', 'Kwargs'):
                for n in re.findall(r'``\*{0,2}(\w+)``', k.group(1)):
                    tot += 1
                    if n not in ps:
                        c.violate('documented', f.qual, '%s:%d' % (f.module.path, f.node.lineno), 'the documented argument %s is not accepted' % n)
                        return False
    c.note('documented arguments', tot)
    return '%d arguments' % tot
