#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
root = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p,
        'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'TLA+ specification model-checked by TLC; recorded calls of the library validated against it as traces, model-generated behaviours replayed',
        'level': 'model_checking',
        'level_note': PROPS[p].get('note', 'TLC checks the laws of the specification exhaustively within small bounds; the library is bound to it by validating every recorded call (exhaustive for the small domains named in DESIGN.md, seeded random beyond). Trusted: TLC, the recording harness, tolerance for rounding.'),
    } for p in ids if p in PROPS],
    'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in ids if p not in PROPS],
    'notes': 'Specification language: TLA+ (TLC). No hooks in /repo: everything is observed through the public interface.',
}
if not m['not_applicable']:
    del m['not_applicable']
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
