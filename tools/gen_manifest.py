"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from importlib import util
PROOF = 'proof'; OTHER = 'other'
AI = 'abstract interpretation of the LLVM IR (symbolic digit-array domain, inferred loop invariants, modular kernel summaries)'
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 engine/extract.py',
     'checks': [{'property': i, 'quick_cmd': 'python3 engine/check.py %s' % i, 'thorough_cmd': 'python3 engine/check.py %s --tier thorough' % i, 'technique': t, 'level': l, 'level_note': n} for i in ids if i in CLAIMS for l, t, n in [CLAIMS[i]]],
     'not_applicable': [{'property': i, 'reason': NA.get(i, DEFAULT)} for i in ids if i not in CLAIMS]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
