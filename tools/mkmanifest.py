#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py, properties.jsonl and NOT_APPLICABLE in specs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import specs
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the LLVM IR of the real code; obligations discharged by z3 (QF_NRA / bit-vectors) and exact polynomial normal forms; counterexamples replayed natively',
            level=s.get('level', 'model_checking'),
            level_note='Holds for every value within: ' + s['bounds'] + '. Trusts: clang -O1 lowering, the executor in engine/ (cross-checked natively on witnesses each run), real-number model of floating point.' + (' Assumes: ' + '; '.join(s['assume']) if s.get('assume') else '')))
    else: na.append(dict(property=i, reason=specs.NOT_APPLICABLE.get(i, 'not yet built')))
json.dump(dict(version=1, setup_cmd='make -s -C engine -j4 B=/verif/.build', checks=checks, not_applicable=na, notes='See DESIGN.md. Checks rebuild the engine if .build is absent and regenerate the encoding from /repo/src on every run.'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
