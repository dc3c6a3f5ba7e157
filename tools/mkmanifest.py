#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per mc/cXX.py present."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R+'/properties.jsonl')]
notes = json.load(open(R+'/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{R}/mc/{i.lower()}.py'
    if os.path.exists(f) and i in notes:
        checks.append({
            'property': i, 'quick_cmd': f'./run.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': notes[i][0], 'level': 'model_checking',
            'level_note': notes[i][1]})
    else:
        na.append({'property': i, 'reason': notes.get('na', {}).get(
            i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'All checks execute the unmodified code in /repo/src (no hooks) '
              'on exhaustively enumerated bounded cases and histories, each '
              'step compared with an independent reference model.'}
json.dump(m, open(R+'/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
