#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks and the properties."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import report
pd = os.path.join(ROOT, 'sa', 'props')
for f in sorted(os.listdir(pd)):
    if f.endswith('.py') and f != '__init__.py':
        importlib.import_module('sa.props.' + f[:-3])
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from not_applicable import REASONS
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in report.REGISTRY:
        f, technique, note = report.REGISTRY[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + technique,
                       'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': REASONS.get(i, 'The static check for it is not built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': na}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print('%d checks, %d not applicable' % (len(checks), len(na)))
