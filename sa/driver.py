"""Run the abstract interpreter on one function or a sequence of method calls."""
import ast
from .terms import *
from .interp import Analysis, State, Frame, Func

_NODE = ast.Pass(lineno=0)


class Run(object):
    """One abstract run: an Analysis with a persistent state."""

    def __init__(self, pkg, assume=None, prims=None):
        self.pkg = pkg
        self.an = Analysis(pkg, assume=assume, prims=prims)
        self.st = State()
        self.an.frames = []
        fr = Frame(('f', 0), None, None)
        self.st.envs[fr.fid] = {}
        self.fr = fr
        self.mod = list(pkg.modules.values())[0]
        self.an.cur_module = self.mod
        self.alive = True
        self.an.frame_closure = {}

    @property
    def events(self):
        return self.an.events

    def deep(self, v):
        return self.an.deep(v, self.st)

    def sym(self, name):
        return sym(name)

    def symargs(self, f, skip_self=True, given=None):
        """Symbolic positional arguments for every parameter of f."""
        given = given or {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and f.cls is not None and f.kind == 'function':
            names = names[1:]
        args = []
        for n in names:
            args.append(given.get(n, sym(n)))
        kw = []
        for x in a.kwonlyargs:
            kw.append((x.arg, given.get(x.arg, sym(x.arg))))
        return args, kw

    def call(self, qual, args=None, kw=None, given=None):
        f = self.pkg.func(qual)
        if f is None:
            raise LookupError(qual)
        if args is None:
            args, kw2 = self.symargs(f, given=given)
            kw = list(kw or []) + kw2
        elif given:
            kw = list(kw or []) + list(given.items())
        return self.an.invoke(f, list(args), list(kw or []), self.st, f.module, _NODE)

    def obj(self, clsq, open_as=None):
        c = self.pkg.cls(clsq)
        if c is None:
            raise LookupError(clsq)
        return self.an.newobj(c, self.st, open_as=sym(open_as) if open_as else None)

    def new(self, clsq, args=(), kw=()):
        c = self.pkg.cls(clsq)
        if c is None:
            raise LookupError(clsq)
        return self.an.instantiate(c, list(args), list(kw), self.st, self.fr, c.module, _NODE)

    def method(self, o, name, args=None, kw=None, given=None):
        c = self.an.objcls[o.args[0]]
        w, _ = c.lookup(name)
        if w is None or w.op != 'fn':
            raise LookupError('%s.%s' % (c.qual, name))
        f = w.args[0]
        if args is None:
            args, kw2 = self.symargs(f, given=given)
            kw = list(kw or []) + kw2
        elif given:
            kw = list(kw or []) + list(given.items())
        return self.an.invoke(f, [o] + list(args), list(kw or []), self.st, f.module, _NODE)

    def attr(self, o, name):
        v = self.an.objattr(o, name, self.st, self.fr, self.mod, _NODE)
        return self.an.deep(v, self.st)

    def setattr(self, o, name, v):
        self.st.heap[('attr', o.args[0], name)] = self.an.wrap_param(v, self.st)


def run_any(pkg, f, assume=None, prims=None, trace=False):
    """Interpret any function with symbolic arguments; methods on an open object."""
    r = Run(pkg, assume, prims)
    r.an.trace = trace
    args, kw = r.symargs(f)
    if f.cls is not None and f.kind in ('function', 'property'):
        if f.name == '__init__':
            o = r.an.newobj(f.cls, r.st)
        else:
            o = r.an.newobj(f.cls, r.st, open_as=sym('self'))
        args = [o] + args
        r.self_obj = o
    r.result = r.an.invoke(f, args, kw, r.st, f.module, _NODE)
    return r
