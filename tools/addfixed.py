"""addfixed.py PROP SHA [PROP SHA ...]: record fix commits of /repo in known_findings.json"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
a = sys.argv[1:]
for prop, sha in zip(a[::2], a[1::2]):
    msg = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', sha], text=True).strip()
    h, m = msg.split(' ', 1)
    assert m.startswith('fix: ')
    line = 'fixed: property=%s %s %s' % (prop, h, m[5:])
    if line not in d['fixed']:
        d['fixed'].append(line)
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
