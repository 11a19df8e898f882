#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan of the checks."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import stages
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', '^verif: '], capture_output=True, text=True).stdout.split()
DEF = 'TLA+ specification checked with TLC; recorded runs of the real code validated against it'
m = {'version': 1, 'setup_cmd': 'bin/setup.sh',
     'hooks': {'guard': 'verif', 'enable': 'go build -tags verif', 'source_commits': hook},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in stages.PLAN:
        level = stages.PLAN[i][0]
        m['checks'].append({'property': i, 'quick_cmd': 'bin/check.py %s quick' % i, 'thorough_cmd': 'bin/check.py %s thorough' % i,
                            'technique': stages.TECH.get(i, DEF), 'level': level,
                            'level_note': stages.NOTES.get(i, 'Decides every recorded call, result and file content of the explored runs against the specification; what was not run is not covered.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'the check for it is still being built'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
