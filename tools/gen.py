#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props_data.py (claimed = a contracts/<id>.py exists)"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
from props_data import PROPS, NOTES, NA
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if os.path.exists(H + '/contracts/%s.py' % i) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
                           technique='contract-based deductive verification of the real code: contracts, loop invariants and lemmas discharged by z3/cvc5 on verification conditions generated from the clang AST of the current sources',
                           level='proof', level_note=NOTES.get(i, 'functions under contract proved for all inputs; doubles treated as reals')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'contracts not built yet')))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na)
with open(H + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
