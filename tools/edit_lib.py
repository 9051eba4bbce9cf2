"""Helpers for the edit files: whole functions as (file, old, new)."""
import ast, textwrap


def func(file, name, new, cls=None, root='/repo/modred/'):
    """Replace the function (or method of cls) called name by the dedented text new."""
    src = open(root + file).read()
    body = ast.parse(src).body
    if cls:
        body = [n for n in body if isinstance(n, ast.ClassDef) and n.name == cls][0].body
    n = [x for x in body if isinstance(x, ast.FunctionDef) and x.name == name][0]
    lines = src.split('\n')
    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
    old = '\n'.join(lines[first - 1:n.end_lineno])
    new = textwrap.indent(textwrap.dedent(new).strip('\n'), '    ' if cls else '')
    i = first - 1
    while src.count(old) > 1:           # the same method in another class
        i -= 1
        old = lines[i] + '\n' + old
        new = lines[i] + '\n' + new
    return file, old, new


def nth(file, old, new, k=1, root='/repo/modred/'):
    """Replace the k-th occurrence of old."""
    s = open(root + file).read()
    i = -1
    for _ in range(k):
        i = s.find(old, i + 1)
        assert i >= 0, (file, old[:50], k)
    lo, hi = i, i + len(old)
    while s.count(s[lo:hi]) > 1:
        lo, hi = max(0, lo - 40), min(len(s), hi + 40)
    return file, s[lo:hi], s[lo:i] + new + s[i + len(old):hi]
