from ..common import *
from ..report import prop

EFFECT = ('prim', 'call', 'mcall', 'store', 'mutcall', 'print', 'gstore', 'classset')


@prop('P11', 'abstract interpretation in the distributed world: every path of the function ends in a raise before any effect',
      'Sound for the analysed entry points: all paths are covered with symbolic arguments.')
def p11(c):
    pkg = package('mpiN')
    c.rule('P11', 'with NPROCS >= 2 the first thing an array-based entry point does is raise')
    ents = []
    for n, f in sorted(public_funcs(pkg).items()):
        if n.startswith('compute_') and '_arrays' in n and n != 'compute_derivs_arrays':
            ents.append((n, f))
    for n, cl in sorted(public_classes(pkg).items()):
        if n == 'LTIGalerkinProjectionArrays':
            m = methods(cl).get('__init__')
            if m is not None:
                ents.append((n, m))
    if len(ents) < 8:
        c.undecided('entry points', 'only %d array-based entry points found' % len(ents))
    for n, f in ents:
        c.ob(n, one, c, pkg, n, f)
        c.note('entry points')


def one(c, pkg, n, f):
    r = run_any(pkg, f)
    if r.st.alive:
        c.violate('no-guard', n, '%s:%d' % (f.module.path, f.node.lineno),
                  '%s can run to completion in a distributed run' % n)
        return False
    rs = [e for e in r.events if e.kind == 'raise']
    if not rs:
        raise Undecided('no raise event')
    bad = [e for e in r.events if e.kind in EFFECT and e.seq < rs[0].seq and not in_parallel(e)
           and not (e.kind == 'call' and e.d['func'].op in ('ext', 'class') and is_exc_ctor(e.d['func']))]
    bad = [e for e in bad if not harmless(e)]
    if bad:
        c.violate('work-before-guard', n, bad[0].loc, 'work is done before the distributed run is refused: %r' % (bad[0],))
        return False
    if rs[0].pc:
        raise Undecided('the first raise is conditional: %s' % (rs[0].pc,))
    return 'raises at %s before any effect' % rs[0].loc


def is_exc_ctor(fv):
    if fv.op == 'ext':
        n = fv.args[0]
        return n.startswith('builtins.') and n.endswith(('Error', 'Exception'))
    return fv.op == 'class' and any(b.op == 'ext' and b.args[0].endswith(('Error', 'Exception')) for b in fv.args[0].ext_bases())


def harmless(e):
    """Formatting a message or the like."""
    if e.kind == 'mcall' and e.d['recv'].op == 'const':
        return True
    if e.kind == 'call' and e.d['func'].op == 'ext' and e.d['func'].args[0].startswith('builtins.'):
        return True
    return False
