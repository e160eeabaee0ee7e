#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims listed here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3-vt check.py --selftest',
     'checks': [], 'not_applicable': [],
     'notes': 'Own deductive verifier (vcgen/) over LLVM IR produced on every run from /repo; see DESIGN.md. Known findings and repaired defects: known-findings.txt.'}
for p in props:
    if p in CLAIMS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p,
                            'technique': 'contract-based deductive verification of the real code (LLVM IR, SMT), bounded replay harness for failing inputs',
                            'level': 'proof', 'level_note': CLAIMS[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check yet: contracts for this part are still being written')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
