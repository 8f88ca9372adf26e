#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
NA = {}
ps = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the harness uses the public API only. DESIGN.md describes the engine.'}
for p in ps:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough',
            'technique': 'symbolic execution of the rustc MIR of /repo and its dependencies, SMT (z3) over all values within the bounds',
            'level': 'model_checking', 'level_note': f"Every feasible path within: {c['bounds']}. Outside: {c['outside']}. Trusts the engine's MIR semantics and regex automata, checked by native replay of counterexamples and witnesses."})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not checked yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
