"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'TLA+ specification of the machine checked with TLC; recorded histories of the real core validated against it'
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i not in checks.CHECKS:
        m['not_applicable'].append({'property': i, 'reason': checks.WHY_NOT.get(i, 'no check yet')})
        continue
    m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                        'technique': checks.TECHNIQUE.get(i, TECH), 'level': 'model_checking', 'level_note': checks.NOTES.get(i, checks.NOTE)})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
