#!/usr/bin/env python3
"""plant.py <id> <property> <file> -- reads JSON {old,new,needs,breaks,demo} from stdin (old/new may be lists) and
creates seeded/<id>/ with a patch made against /repo HEAD."""
import json, os, subprocess, sys, tempfile, shutil
def plant(id, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new)]"""
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.check_call(f'git -C /repo archive HEAD | tar -x -C {t}', shell=True)
        subprocess.check_call('git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm base', shell=True, cwd=t)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=t, text=True)
        assert diff
        open(f'{d}/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(t)
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# exit 0 on the unchanged tree\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'PY=/opt/venv/bin/python\nexec timeout 200 "$PY" "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings; warnings.filterwarnings("ignore")\n' + demo.strip() + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
