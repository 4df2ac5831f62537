#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a harness file, the rest not applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
naf = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(naf): NA = json.load(open(naf))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    f = os.path.join(V, 'h', 'src', i.lower() + '.rs')
    if os.path.exists(f) and i not in NA:
        bounds = [m.strip() for m in re.findall(r'^//! bound:(.*)$', open(f).read(), re.M)]
        checks.append({
            'property': i,
            'quick_cmd': f'python3 run.py {i}',
            'thorough_cmd': f'python3 run.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the LLVM IR of lofty (rebuilt from /repo on every run), every path decided by Z3; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Bounds: ' + '; '.join(bounds) + '. The solver decides every explored path for all values of its symbolic bytes; inputs outside the stated shapes, and paths left when the time budget ends (counted in the evidence), are not covered.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no harness yet')})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks}
if na: m['not_applicable'] = na
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
