"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | what it breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    d = os.path.basename(os.path.dirname(f))
    cut = lambda s: ' '.join(str(s).replace('|', '/').split())[:160]
    rows.append('| %s | %s | %s | %s |' % (d, cut(m['what_it_breaks']), cut(m['needs']), m.get('caught_by', m['property'])))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', a + '\n' + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
