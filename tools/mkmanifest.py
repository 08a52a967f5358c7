#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checkinfo.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checkinfo
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = 'a pure function of its input: no schedule, clock, I/O, randomness or fault takes part, so there is nothing for a simulator to decide (input generation alone is not this technique)'
na = {'N01': PURE, 'N02': PURE, 'N03': PURE, 'N04': PURE, 'N05': PURE, 'N06': PURE + '; its scheduling-dependent side is C08'}
checks = []
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in ids:
    if p in checkinfo.INFO:
        i = checkinfo.INFO[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': i['technique'], 'level': i['level'], 'level_note': i['note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py build',
     'hooks': {'guard': 'verif', 'enable': 'go build -tags verif (check.py build adds it, with the overlay written by simgen)', 'source_commits': ['8395f2c']},
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': na.get(p, 'check not built yet')} for p in ids if p not in checkinfo.INFO],
     'notes': 'See DESIGN.md. Known findings and repairs: known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
