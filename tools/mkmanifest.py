#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
h = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(h + '/properties.jsonl')]
BUILT = json.load(open(h + '/tools/built.json'))
NOTE = "Random and structure-aware search with shrinking, no proof: a failing case is a real failing input; silence means none was found among the generated cases. Trusts the reference model in harness/src/model.rs (written from X.690, where it has an opinion) and rustc."
checks = [{'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough', 'technique': BUILT[i], 'level': 'exploration', 'level_note': NOTE} for i in ids if i in BUILT]
na = [{'property': i, 'reason': 'check not built yet'} for i in ids if i not in BUILT]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check drives the public API. Checks build harness crates in /verif with path dependencies on /repo.'}
json.dump(m, open(h + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
