#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/claims.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(V, 'tools', 'claims.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = C['claimed'].get(p)
    if c and os.path.exists(os.path.join(V, 'sa', 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'technique': c[0], 'level': 'other', 'level_note': c[1]})
    else:
        na.append({'property': p, 'reason': C['not_applicable'].get(p, 'No sound static check has been built for this property yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static analyses of the LLVM IR that clang produces from /repo\'s current working tree; nothing of picotm is executed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', ' '.join(x['property'] for x in na), 'not applicable')
