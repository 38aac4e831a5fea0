#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks in parts.py and the notes below."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'trace validation of recorded engine histories against the TLA+ specification (TLC)'
NOTE = ('Every recorded answer and every sample of both channels of every generated history of the real engine is '
        'compared with the TLA+ model within a fixed tolerance; exhaustive for the recorded histories, sampling over '
        'programs and histories. Trusts TLC, the harness and the fixed-point arithmetic of the model.')
TECH = {}
NOTES = {}
try:
    from levels import TECH, NOTES
except ImportError:
    pass

ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --setup',
     'checks': [], 'not_applicable': []}
for p in ids:
    if p in parts.PARTS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 tools/check.py %s' % p,
                            'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p, TRACE),
                            'level': 'model_checking', 'level_note': NOTES.get(p, NOTE)})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'the part of the specification for it is not built yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
