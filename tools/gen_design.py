#!/usr/bin/env python3
"""Fill the tables of DESIGN.md (between the markers) from known_findings.jsonl and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes, known = [], []
for l in open(V + '/known_findings.jsonl'):
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        fixes.append('* %s `%s` %s' % m.groups())
    elif l.strip():
        j = json.loads(l)
        known.append('* %s %s: %s' % (j['property'], j['key'], j['what']))
rows = ['| bug | caught by | needs |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(f))
    caught = j.get('caught', j['property'] + ' quick')
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), caught, j['needs'].replace('|', '/')))
notes = []
for f in sorted(glob.glob(V + '/checks/c*.py')):
    m = re.search(r'^ASSUMPTIONS = (\[.*?\])$', open(f).read(), re.S | re.M)
    notes += ['* %s: %s' % (os.path.basename(f)[:-3].upper(), '; '.join(eval(m.group(1)))) ] if m else []
p = V + '/DESIGN.md'
s = open(p).read()
for name, text in (('fixes', fixes), ('known', known), ('seeds', rows), ('assumptions', notes)):
    s = re.sub('(<!-- %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + '\n'.join(text) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
