#!/usr/bin/env python3
"""Writes MANIFEST.json from the case table and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import cases
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 lib/run.py setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in cases.PROPS:
        s = cases.PROPS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 lib/run.py check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 lib/run.py check ' + i,
            'technique': s.get('technique', 'symbolic execution of the LLVM IR of the real sources with Z3 deciding every branch and assertion; counterexamples and sample paths replayed on the native sanitized build'),
            'level': s.get('level', 'model_checking'),
            'level_note': s.get('note', 'Holds for every value of the symbolic inputs within the bounds written in the evidence file. ') + ' Outside: ' + (s.get('outside') or 'see DESIGN.md') + ' Trusted: ' + ' '.join(s.get('assumes', [])),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': cases.NA.get(i, 'No check built yet.') if hasattr(cases, 'NA') else 'No check built yet.'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
