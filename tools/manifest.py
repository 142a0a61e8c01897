#!/usr/bin/env python3
"""writes MANIFEST.json from the rules that exist"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'analysis'))
import rules
NA = {
    'H01': 'linearizability quantifies over the real-time order of concurrent histories; no static argument in reach bounds it (its lock and publication ingredients are decided as C13-C18, C21 and C33)',
    'H02': 'a hit ratio is a statistical quantity of concrete workloads; nothing in the source decides it (the mechanisms behind it are decided as C11, C29 and C34)',
    'H03': 'weights come from arbitrary user code, so the sums can be made to overflow by a weighter; no bound exists to check',
}
T = 'interprocedural typestate/dataflow analysis (abstract interpretation) over rustc MIR'
checks = []
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
for i in ids:
    R = rules.RULES.get(i)
    if R is None:
        NA.setdefault(i, 'no check is registered for it yet')
        continue
    checks.append({'property': i, 'level': 'other', 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': getattr(R, 'technique', None) or T,
                   'level_note': 'Rule: ' + R.rule + '. ' + (getattr(R, 'note', None) or 'static analysis: every path of every public entry up to loop fixpoints, in an abstraction of the program; paths through code the analysis does not model are left undecided and listed in the evidence')})
m = {'version': 1, 'setup_cmd': 'bash tools/driver.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in rules.RULES]}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
