#!/usr/bin/env python3
"""writes the per-property table of DESIGN.md (between the markers) from the rules"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'analysis'))
import rules
B, E = '<!-- rules -->', '<!-- /rules -->'
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
rows = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    R = rules.RULES.get(p['id'])
    if R is not None:
        rows.append('* **%s %s.** %s. (configurations: %s)' % (p['id'], p['title'], R.rule[0].upper() + R.rule[1:], ', '.join(R.cfgs)))
a, _, z = s.partition(B)
z = z.partition(E)[2]
open(f, 'w').write(a + B + '\n' + '\n'.join(rows) + '\n' + E + z)
