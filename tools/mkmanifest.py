#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
exec(open(os.path.join(ROOT, 'tools', 'checks.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[], notes=NOTES)
for p in props:
    if p in CHECKS:
        t, level, note = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd=f'./check.py {p}', thorough_cmd=f'VERIF_TIER=thorough ./check.py {p}',
                                technique=t, level=level, level_note=note))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
