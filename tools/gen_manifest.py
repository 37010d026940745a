#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and the properties that have a check module."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i in NOTES:
        n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i,
                       'technique': n['technique'], 'level': 'model_checking', 'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': 'the check is not built yet'})
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if ' verif: ' in l]
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'rustc cfg move_ls_verif', 'enable': "RUSTFLAGS='--cfg move_ls_verif'", 'source_commits': hooks},
     'checks': checks, 'not_applicable': na,
     'notes': 'Specifications in TLA+ (spec/), checked with TLC; bound to the code by replaying behaviours '
              'the specifications generate and by validating recordings of the real code against them.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
