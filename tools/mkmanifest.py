"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = 'property-based testing (Hypothesis): generated inputs and histories against {}'
checks, na = [], []
oracle = json.load(open(os.path.join(V, 'tools', 'oracles.json')))
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        o = oracle[pid]
        checks.append({'property': pid,
                       'quick_cmd': '/opt/venv/bin/python /verif/run.py {} quick'.format(pid),
                       'thorough_cmd': '/opt/venv/bin/python /verif/run.py {} thorough'.format(pid),
                       'evidence_file': 'evidence/{}.json'.format(pid),
                       'technique': TECH.format(o),
                       'level': 'exploration',
                       'level_note': 'Holds on every generated case of the run (counts, distribution and samples in the '
                                     'evidence); failures are shrunk to a replay file. No proof of absence.'})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks run on the pure-Python working tree in /repo; nothing needs to be built. '
                    'VERIF_SEED selects the generated cases.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
