#!/usr/bin/env python3
"""The slowest jobs of the last run of a check: slow.py CNN [number]"""
import json, os, sys
e = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'evidence', sys.argv[1] + '.json')))
for r in sorted(e['coverage']['job_results'], key=lambda r: -r.get('wall_s', 0))[:int(sys.argv[2]) if len(sys.argv) > 2 else 15]:
    print(r.get('wall_s'), r['result'], 'paths', r.get('paths'), 'q', r.get('smt_queries'), 'aff', r.get('affine_assertions'), r.get('affine_queries'), 'solver', r.get('solver_s'), r.get('ends'), r['job'][:150])
