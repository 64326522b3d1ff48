"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s (caught) | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
s = open(H + '/DESIGN.md').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', t)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
