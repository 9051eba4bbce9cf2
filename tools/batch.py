#!/usr/bin/env python3
"""Try many breaking edits at once:  batch.py FILE [LABEL…]

FILE is Python holding BUGS = {label: (checks, [(file, old, new), …])}; checks is a
blank-separated list ('*' for all).  Prints who reports each edit, or MISSED.
"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from preserve import copy, one, checks
from concurrent.futures import ThreadPoolExecutor


def go(label, pids, edits):
    try:
        t = copy(edits)
    except (SystemExit, SyntaxError) as e:
        return '%s BADEDIT %s' % (label, str(e)[:160])
    try:
        res, und = [], []
        for p in (checks() if pids == '*' else pids.split()):
            pid, rc, u, out = one(p, t)
            if rc != 0:
                ls = [x for x in out.splitlines() if 'VIOLATION' not in x and ': [' in x]
                res.append('%s(%s): %s' % (p, rc, (ls[0].strip() if ls else out[-100:])[:170]))
                if pids == '*':
                    break
            elif u and u[1]:
                und.append('%s undecided %d' % (p, u[1]))
                open('/tmp/batch_%s_%s.log' % (label, p), 'w').write(out)
        return '%s %s' % (label, ' | '.join(res) if res else '**MISSED** ' + ', '.join(und))
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = {k: v for k, v in ns['BUGS'].items() if not sys.argv[2:] or k in sys.argv[2:]}
    with ThreadPoolExecutor(7) as ex:
        for s in ex.map(lambda kv: go(kv[0], kv[1][0], kv[1][1]), bugs.items()):
            print(s, flush=True)


if __name__ == "__main__":
    main()
