#!/usr/bin/env python3
"""writes the table of seeded changes of DESIGN.md from seeded/*/meta.json (not used by any check)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
B, E = '<!-- seeded -->', '<!-- /seeded -->'
rows = ['| change | check that reports it | needs | breaks |', '|---|---|---|---|']
for n in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', n, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (n, m.get('caught', m['property']), m['needs'], m['what_it_breaks']))
a, _, z = s.partition(B)
z = z.partition(E)[2]
open(f, 'w').write(a + B + '\n' + '\n'.join(rows) + '\n' + E + z)
