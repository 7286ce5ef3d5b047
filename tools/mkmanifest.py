#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the list of claimed properties and the reasons for the others."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from suites import SUITE_OF, NA, CLAIMED, LEVEL_NOTE, TECH
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        s = SUITE_OF[i]
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': TECH[s], 'level': 'model_checking', 'level_note': LEVEL_NOTE[s]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The specification and its conformance harness for this property are not built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py setup', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'No hooks: the harnesses link /repo\'s own objects and replace only time(), the slow hashes, the random source and the DNS lookup at link time.', 'source_commits': []},
     'notes': 'TLA+ checked with TLC. See DESIGN.md. Every check builds /repo\'s working tree into a private directory, runs seeded drivers on the real code, and has TLC accept or reject the recorded behaviours against the specification in spec/.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
