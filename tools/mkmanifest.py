#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered jobs."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'driver'))
import jobs as J
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
p = os.path.join(H, 'driver/not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in J.PROPS:
        P = J.PROPS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'bounded symbolic execution of the crate\'s LLVM IR, assertions decided by an SMT solver (z3)',
            'level': P.level,
            'level_note': 'Holds for every value of the symbolic inputs within the bounds: %s. Outside: %s. Trusts rustc/LLVM, the engine in /verif/engine, z3 and the oracle in /verif/harness; counterexamples and path witnesses are re-run natively.' % ('; '.join(P.bounds), '; '.join(P.outside) or 'nothing'),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet: under construction')})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
