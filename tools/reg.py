#!/usr/bin/env python3
"""reg.py C09 "technique" "note" [level]: register a check;  reg.py fixed C09 <commit> "what": record a repair"""
import sys, json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == 'fixed':
    f = os.path.join(ROOT, 'known_findings.json'); d = json.load(open(f))
    d['fixed'].append(f'fixed: property={sys.argv[2]} {sys.argv[3]} {sys.argv[4]}')
    json.dump(d, open(f, 'w'), indent=1)
else:
    f = os.path.join(ROOT, 'tools', 'checks.py'); s = open(f).read().rstrip()
    assert s.endswith('}') and f"'{sys.argv[1]}'" not in s
    s = s[:-1] + f" {sys.argv[1]!r}: ({sys.argv[2]!r}, {(sys.argv[4] if len(sys.argv) > 4 else 'model_checking')!r},\n         {sys.argv[3]!r}),\n}}\n"
    open(f, 'w').write(s)
    subprocess.run(['python3', os.path.join(ROOT, 'tools', 'mkmanifest.py')])
