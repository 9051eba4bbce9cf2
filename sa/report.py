"""Obligations, verdicts, evidence files and known findings."""
import json
import os
import sys
import time
import traceback
from .terms import T, show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')

REGISTRY = {}


def prop(pid, technique, note, module=None):
    def deco(f):
        REGISTRY[pid] = (f, technique, note)
        return f
    return deco


class Undecided(Exception):
    pass


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.oks, self.undec, self.viol, self.errors = [], [], [], []
        self.analysed = {}
        self.assumptions = []
        self.rules = {}
        self.t0 = time.time()

    # -- verdicts
    def ok(self, name, detail=''):
        self.oks.append((name, detail))

    def undecided(self, name, why):
        self.undec.append((name, str(why)[:600]))

    def violate(self, rule, construct, loc, msg):
        """rule: short id of the rule; construct: function/class it concerns (stable key)."""
        key = '%s|%s' % (rule, construct)
        if not any(v['key'] == key and v['loc'] == loc for v in self.viol):
            self.viol.append({'key': key, 'rule': rule, 'construct': construct, 'loc': loc, 'msg': msg[:3000]})

    def note(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, name, fn, *a, **k):
        """Run one obligation; fn returns a detail string (discharged), or calls violate/undecided itself
        and returns False."""
        nv, nu = len(self.viol), len(self.undec)
        try:
            r = fn(*a, **k)
        except Undecided as e:
            self.undecided(name, e)
            return
        except RecursionError as e:
            self.undecided(name, 'recursion limit')
            return
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.errors.append('%s: %r at %s:%d' % (name, e, os.path.basename(tb.filename), tb.lineno))
            self.undecided(name, 'analysis error: %r' % (e,))
            return
        if len(self.viol) == nv and len(self.undec) == nu and r is not False:
            self.ok(name, r if isinstance(r, str) else '')

    # -- finish
    def known(self):
        known = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                line = line.strip()
                if line.startswith('known:'):
                    # known: property=<id> key=<rule|construct> :: <what>
                    body = line[len('known:'):].strip()
                    head, _, what = body.partition(' :: ')
                    f = {}
                    pr, _, key = head.partition(' key=')
                    f['property'] = pr.replace('property=', '').strip()
                    f['key'] = key.strip()
                    f['what'] = what.strip()
                    known.append(f)
        return [f for f in known if f['property'] == self.pid]

    def finish(self, level, note, technique):
        known = self.known()
        new, old = [], []
        for v in self.viol:
            k = next((f for f in known if f['key'] == v['key']), None)
            (old if k else new).append((v, k))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'explanation': '%s. %s' % (technique, note),
                'rules': self.rules,
                'obligations': len(self.oks) + len(self.undec) + len(self.viol),
                'discharged': len(self.oks),
                'undecided': [{'obligation': n, 'reason': w} for n, w in self.undec],
                'analysed': self.analysed,
                'discharged_obligations': ['%s%s' % (n, ': ' + d if d else '') for n, d in self.oks][:400],
                'known_findings': [v['key'] for v, k in old],
                'violations_found': [v for v, k in new],
                'analysis_errors': self.errors,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        seen = set()
        for v, k in old:
            if k['key'] not in seen:
                seen.add(k['key'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for n, w in self.undec:
            print('undecided: %s: %s' % (n, w[:300]))
        print('%s: %d obligations discharged, %d undecided, %d violations (%d known) in %.2fs' % (
            self.pid, len(self.oks), len(self.undec), len(self.viol), len(old), time.time() - self.t0))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.json')
            with open(rp, 'w') as fh:
                json.dump([v for v, k in new], fh, indent=1)
            for v, k in new[:20]:
                print('  %s at %s: [%s] %s' % (v['construct'], v['loc'], v['rule'], v['msg'][:1200]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.json')
        if os.path.exists(rp):
            os.remove(rp)
        if not self.oks and not old:
            print('UNDECIDED property=%s: nothing could be decided on this tree (see the evidence file); no violation is known' % self.pid)
        return 0


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    import importlib
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        from . import props
        pd = os.path.dirname(props.__file__)
        for f in sorted(os.listdir(pd)):
            if f.endswith('.py') and f != '__init__.py':
                importlib.import_module('sa.props.' + f[:-3])
        if pid not in REGISTRY:
            print('error: no check for %s' % pid)
            return
        f, technique, note = REGISTRY[pid]
        c = Check(pid, tier, seed)
        try:
            f(c)
        except Undecided as e:
            c.undecided('the check', e)
        except SyntaxError:
            raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            c.errors.append('%r at %s:%d' % (e, os.path.basename(tb.filename), tb.lineno))
            c.undecided('the check', 'analysis error: %r' % (e,))
        rc[0] = c.finish('other', note, technique)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return rc[0]
