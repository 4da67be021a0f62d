#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the not-applicable table."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
import sys; sys.path.insert(0, V)
from checks import CHECKS
from texts import NOTES, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 /verif/setup.py', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'PSI_SIM_SIZE', 'enable': 'shim/prelude.h, precompiled into every simulated translation unit by build.py, defines the macro', 'source_commits': ['771d67bcb5e660b9b728d05848d4dd1d74360c0f']}}
for p in props:
    if p in CHECKS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 /verif/check.py %s quick' % p,
                            'thorough_cmd': 'python3 /verif/check.py %s thorough' % p,
                            'technique': 'deterministic simulation with fault injection: seeded search over schedules, message timings and faults of the real code in one simulated world, judged against an executable reference model; replayable minimised traces',
                            'level': 'exploration', 'level_note': NOTES[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
