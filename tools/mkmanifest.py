#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification (own VC generator over the clang AST of /repo, z3/cvc5)'
CLAIM = {
    'A04': 'Proved for texts of every length: the validator against the Unicode well-formedness definition (inferred loop invariant), the text constructors, the iterator per position, the UTF-16BE conversion. Trusts the C++ library contracts of capyver/models.py. A native harness replays failures and is a bounded complement.',
}
NA = {}
try:
    exec(open(os.path.join(V, 'tools', 'claims.py')).read())
except FileNotFoundError:
    pass
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CLAIM:
        m['checks'].append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p, 'technique': T, 'level': 'proof',
                            'level_note': CLAIM[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not yet under contract in this commit')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
