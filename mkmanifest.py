#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of checks and the reasons below"""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import run
NA = json.load(open(os.path.join(ROOT, 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
reg = run.registry()
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        mod, _ = reg[i]
        note = getattr(mod, 'NOTE', {}).get(i, '')
        checks.append(dict(
            property=i, quick_cmd=f'python3 run.py check {i}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py check {i}',
            technique=getattr(mod, 'TECHNIQUE', {}).get(i, 'contracts on the functions extracted from /repo on every run, discharged by Verus (z3)'), level=getattr(mod, 'LEVEL', {}).get(i, 'proof'),
            level_note=('Every contract of the functions named in the evidence is discharged for all inputs; the contracts of the dependencies '
                        '(listed in the evidence) are assumed. ' + note + ' If extraction or verifier give no answer on a changed tree, the bounded companion run '
                        'decides alone and the evidence says so.').strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='python3 run.py setup', hooks=dict(guard='none: no hook is needed', enable='nothing to enable; the checks read and build /repo as it is', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
