#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and vp/props.py (run after adding a check)"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import props
P = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'))]
NA = props.NOT_APPLICABLE
checks = []
for p in P:
    i = p['id']
    if i not in props.TABLE: continue
    checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}',
        technique='bounded symbolic execution of the LLVM IR of the real headers, decided by z3 (SMT bit-vectors/arrays)', level='model_checking',
        level_note='All values of the symbolic inputs within the stated bit widths are decided by the solver for each structure type/composition instantiated; other compositions and wider inputs are outside. ' + props.NOTES.get(i, '')))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in P if p['id'] not in props.TABLE]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: harnesses use the public API of the header-only library. Known and fixed findings: known_findings.json.'),
    open(os.path.join(os.path.dirname(__file__), '..', 'MANIFEST.json'), 'w'), indent=1)
