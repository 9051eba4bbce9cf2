"""Hash-consed value terms (nodes of the gated value graph)."""


class T(object):
    __slots__ = ('op', 'args', '_h', 'nid')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # identity equality: terms are interned
    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


_table = {}


def _key(a):
    if isinstance(a, (bool, int, float, complex, str, bytes)) or a is None:
        return (type(a).__name__, repr(a) if isinstance(a, (float, complex)) else a)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return a


def mk(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.nid = len(_table)
        t._h = hash(t.nid * 7919 + 13)
        _table[k] = t
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')


def is_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


def sym(name):
    return mk('sym', name)


def ext(name):
    return mk('ext', name)


def top(why):
    return mk('top', why)


def children(t):
    """All T children, flattening tuples."""
    out = []

    def rec(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)
    for a in t.args:
        rec(a)
    return out


def walk(t, seen=None):
    """Every subterm once (DAG)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def subst(t, mapping, memo=None):
    """Replace subterms (by identity)."""
    memo = {} if memo is None else memo

    def rec_any(a):
        if isinstance(a, T):
            return rec(a)
        if isinstance(a, tuple):
            return tuple(rec_any(x) for x in a)
        return a

    def rec(x):
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        new = tuple(rec_any(a) for a in x.args)
        if all(n is o or n == o for n, o in zip(new, x.args)):
            r = x
        else:
            r = rebuild(x.op, new)
        memo[x] = r
        return r
    return rec(t)


def rebuild(op, args):
    f = _rebuilders.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


_rebuilders = {}


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth <= 0:
        return '..'
    o, a = t.op, t.args
    d = depth - 1
    if o == 'const':
        return repr(a[0])
    if o == 'sym':
        return str(a[0])
    if o in ('ext',):
        return str(a[0]).replace('numpy.', 'np.')
    if o == 'glob':
        return str(a[0])
    if o in ('bin', 'cmp'):
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'index':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a[:2]) + (
            '' if a[2] is NONE else ':' + show(a[2], d)) if a[0] is not NONE or a[1] is not NONE else ':'
    if o == 'call':
        return '%s(%s)' % (show(a[0], d), ', '.join(
            [show(x, d) for x in a[1]] + ['%s=%s' % (k, show(v, d)) for k, v in a[2]]))
    if o == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join(
            [show(x, d) for x in a[2]] + ['%s=%s' % (k, show(v, d)) for k, v in a[3]]))
    if o == 'prim':
        return '%s<%s>' % (a[0], ', '.join('%s=%s' % (k, show(v, d)) for k, v in a[1]))
    if o in ('tuple', 'list'):
        return ('(%s)' if o == 'tuple' else '[%s]') % ', '.join(show(x, d) for x in a[0])
    if o == 'phi':
        return 'phi(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == 'lv':
        return 'i%s' % a[0]
    if o == 'mu':
        return 'mu%s.%s' % (a[0], a[1] if isinstance(a[1], str) else '.'.join(map(str, a[1])))
    if o == 'loopout':
        return 'out%s.%s' % (a[0], a[1] if isinstance(a[1], str) else '.'.join(map(str, a[1])))
    if o == 'comp':
        return '[%s for i%s < %s%s]' % (show(a[2], d), a[0], show(a[1], d),
                                        ''.join(' if ' + show(c, d) for c in a[3]))
    if o in ('fn', 'class', 'module'):
        return str(getattr(a[0], 'qual', getattr(a[0], 'name', a[0])))
    return '%s{%s}' % (o, ', '.join(show(x, d) for x in a))
