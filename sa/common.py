"""Helpers shared by the property checks."""
import ast
from .terms import *
from .interp import Package, Analysis, State, RANK, NPROCS
from .driver import Run, run_any
from .report import REPO, Undecided

_pk = {}


def package(world=None):
    if world not in _pk:
        _pk[world] = Package(REPO, world=world)
        if _pk[world].errors:
            raise Undecided('source does not parse: %s' % _pk[world].errors)
    return _pk[world]


def exported(pkg):
    """Names of the public API: module environment of modred/__init__.py."""
    env = pkg.modules['__init__'].env
    return {k: v for k, v in env.items() if not k.startswith('_')}


def public_funcs(pkg):
    return {k: v.args[0] for k, v in exported(pkg).items() if v.op == 'fn'}


def public_classes(pkg):
    return {k: v.args[0] for k, v in exported(pkg).items() if v.op == 'class'}


def methods(cls):
    """name -> Func for all methods of a class, inherited ones included."""
    out = {}
    for c in reversed(cls.mro()):
        for n, v in c.ns.items():
            if v.op == 'fn':
                out[n] = v.args[0]
    return out


def in_parallel(e):
    return e.stack and e.stack[-1][0].startswith('parallel.')


def where(e):
    """file:line (function) of an event."""
    return '%s in %s' % (e.loc, e.stack[-1][0] if e.stack else '?')


def func_of(e):
    return e.stack[-1][0] if e.stack else '?'


def mentions(t, *atoms):
    s = set(atoms)
    return any(x in s for x in walk(t))


def ifail(x):
    raise Undecided(x)
