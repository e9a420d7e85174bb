#!/usr/bin/env python3
"""show.py <property> [n] [substring]: show violating cases grouped"""
import json, sys, re
d = json.load(open(f'/verif/.work/replay-{sys.argv[1]}.json'))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 5
sub = sys.argv[3] if len(sys.argv) > 3 else ''
k = 0
for x in d:
    if sub not in x['what'] and sub not in x['key']: continue
    k += 1
    if k > n: break
    print('=====', x['key']); print(x['what'][:700])
    c = x['data'] or {}
    for f in ('text', 'rules', 'newtext', 'done', 'datatexts', 'how', 'note'):
        if c.get(f): print(f'--{f}:', c[f] if isinstance(c[f], str) else json.dumps(c[f]))
