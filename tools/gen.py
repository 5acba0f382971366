#!/usr/bin/env python3-vt
"""write properties.jsonl and MANIFEST.json from propdata.py, specs/props.py and claims.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(V, 'specs'))
import propdata, props

TECH = 'contract-based deductive verification of the LLVM IR of /repo (own VC generator, z3/cvc5)'
NOTE = ('Every obligation generated from the current source of the functions under contract is discharged for all inputs, all loop iterations and all '
        'states satisfying the stated invariants; callees are used by contract. Trusted: the VC generator, clang -O0/mem2reg, z3; memory model and '
        'assumptions are listed in DESIGN.md and in the evidence file.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in propdata.PROPS:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in propdata.PROPS:
    i = p['id']
    q = props.PROPS.get(i)
    if q and q.get('claim', True):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=q.get('technique', TECH), level=q.get('level', 'proof'), level_note=NOTE + (' ' + q['note'] if q.get('note') else '')))
    else:
        na.append(dict(property=i, reason=props.NOT_CLAIMED.get(i, 'no contract written yet for the functions this property depends on')))
m = dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
