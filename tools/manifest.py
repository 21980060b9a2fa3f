#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks and spec/not_applicable.json."""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import check
from engine import rules
check.load()
na = json.load(open(R + '/spec/not_applicable.json')) if os.path.exists(R + '/spec/not_applicable.json') else {}
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, nap = [], []
for p in props:
    i = p['id']
    if i in rules.CHECKS and i not in na:
        m = rules.CHECKS[i][2]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': m.get('technique', 'path-sensitive dataflow over type-checked MIR (call-graph inlining, value terms, decision tables)'),
                       'level': 'other',
                       'level_note': m.get('level_note', 'every path of the expanded flow graph of the anchored entry points; loops are traversed once with symbolic elements; library code is taken at its documentation')})
    else:
        nap.append({'property': i, 'reason': na.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/collect.py', 'checks': checks, 'not_applicable': nap}, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nap), 'not applicable')
