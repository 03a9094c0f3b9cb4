#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check classes present in checks/."""
import glob, importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
checks = []
for f in sorted(glob.glob(os.path.join(R, 'checks', 'p[0-9][0-9].py'))):
    c = importlib.import_module('checks.' + os.path.basename(f)[:-3]).CHECK
    checks.append({'property': c.ID, 'quick_cmd': 'python3 run.py %s --tier quick' % c.ID,
                   'thorough_cmd': 'python3 run.py %s --tier thorough' % c.ID,
                   'evidence_file': 'evidence/%s.json' % c.ID,
                   'technique': c.TECH, 'level': c.LEVEL,
                   'level_note': getattr(c, 'NOTE', '') or 'Random search; ' + c.RULE})
have = {c['property'] for c in checks}
na = []
with open(os.path.join(R, 'properties.jsonl')) as f:
    for line in f:
        d = json.loads(line)
        if d['id'] not in have:
            na.append({'property': d['id'], 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 -m vlib.build plain cli gc asan', 'checks': checks, 'not_applicable': na}
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
