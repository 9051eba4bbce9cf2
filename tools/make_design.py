"""Refresh the table of planted bugs in DESIGN.md (between the markers)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| planted bug | breaks | what goes wrong | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    d = json.load(open(f))
    esc = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], esc(d['what_it_breaks']), esc(d['needs']), d.get('caught', d['property'])))
rows.append('<!-- /seeds -->')
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('@@SEEDS@@', t) if '@@SEEDS@@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
