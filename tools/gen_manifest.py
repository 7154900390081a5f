#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks listed here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    props[d['id']] = d['title']
MC = 'model_checking'
FE = 'fault_enumeration'
T = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
checks = []
na = []
for i in props:
    if i in T:
        level, tech, note = T[i]
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through the public API, the Ipopt C symbols, or the solver commands found on PATH.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
