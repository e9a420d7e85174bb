#!/bin/bash
# trial.sh <seeded id> [tests] [check ...]: try a planted bug in a scratch copy of /repo
ID=$1; shift
T=/tmp/trial-$ID
rm -rf "/tmp/trial-$ID"; cp -a /repo "$T"
cd "$T" || exit 2
git checkout -q -- . 
export PYTHONPATH=$T PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CI=true PATH=/opt/venv/bin:$PATH
bash /verif/seeded/$ID/demo.sh >/tmp/trial-$ID.clean 2>&1; echo "demo clean: $?"
git apply /verif/seeded/$ID/patch.diff || { echo "patch does not apply"; exit 2; }
bash /verif/seeded/$ID/demo.sh >/tmp/trial-$ID.out 2>&1; echo "demo patched: $?"; tail -3 /tmp/trial-$ID.out
if [ "$1" = tests ]; then shift
  PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 -x --co -q >/dev/null 2>&1
  PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 --continue-on-collection-errors --tb=no -o junit_family=xunit2 --junitxml=/tmp/trial-$ID.xml >/dev/null 2>&1
  /usr/bin/python3 /opt/vp/results.py /tmp/trial-$ID.json junit:/tmp/trial-$ID.xml >/dev/null
  /usr/bin/python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/trial-$ID.json'))
k='passed' if 'passed' in b else None
want=set(b.get('passed') or b.get('stable') or b.get('tests'))
got=set(r['passed'])
print('TESTS broken:', sorted(want-got)[:10])
P
fi
for c in "$@"; do (cd /verif; VERIF_REPO=$T timeout 880 ./check.py $c 2>&1 | tail -4 | cut -c1-400); done
rm -rf "/tmp/trial-$ID"
