#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from lib.config import PROPS, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {'C25': 'type traits are template metaprograms evaluated by the compiler: there is no run-time function to put under contract and no quantification over types in a deductive verifier for C++; only a finite list of types could be tested'}
NOTYET = 'no contract of this family is discharged yet'
TECH = 'contract-based deductive verification (Verus/Z3) of the functions extracted from /repo on every run; bounded replay of the real code for the failing input'
TECHB = 'bounded stand-in (enumerated and random histories of the real code against a reference model); no contracts discharged yet'
checks = []
for p in props:
    i = p['id']
    if i in PROPS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': TECH if PROPS[i][0] else TECHB,
                       'level': 'proof' if PROPS[i][0] else 'exploration', 'level_note': NOTES.get(i, NOTES[''] if PROPS[i][0] else NOTES['bounded'])})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], NOTYET)} for p in props if p['id'] not in PROPS],
     'notes': 'no hooks: nothing in /repo is instrumented; the commits in /repo are fix: commits only'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
