#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property with a module in vt/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    x = json.loads(line)
    pid = x['id']
    if os.path.exists(os.path.join(V, 'vt', 'props', pid.lower() + '.py')):
        tech, note, level = NOTES.get(pid, DEFAULT)
        checks.append({
            'property': pid, 'quick_cmd': './run ' + pid + ' --tier quick',
            'thorough_cmd': './run ' + pid + ' --tier thorough',
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'Pure Python: nothing is built; every check imports the code from /repo/src of the working tree. No hooks in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
