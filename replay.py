#!/usr/bin/env python3
"""replay.py FILE: re-runs the failing input recorded by a check against the code in /repo (exit 1 if it still fails)."""
import importlib
import json
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, __file__.rsplit('/', 1)[0])
d = json.load(open(sys.argv[1]))
if 'case' not in d:
    print('no failing input was found; the recorded obligations are:')
    for o in d.get('obligations', []):
        print('  ', o)
    sys.exit(2)
from refute import lib
m = importlib.import_module('refute.' + d['property'].lower())
r = lib.run_case(m, d['case'])
print('property', d['property'], '->', r or 'holds on this input')
sys.exit(1 if r else 0)
