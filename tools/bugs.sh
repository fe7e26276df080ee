#!/bin/bash
# bugs.sh [ID...]: apply each planted bug to /repo, run its property's check, undo.
cd /verif
for D in ${@:-$(ls seeded)}; do
  P=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$D/meta.json'))['property'])")
  P=${PROP:-$P}
  git -C /repo apply /verif/seeded/$D/patch.diff || { echo "$D does not apply"; continue; }
  timeout 900 /opt/venv/bin/python check.py $P > /tmp/bug.out 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$D $P exit=$c $(grep -v '^VIOLATION\|^seed=' /tmp/bug.out | head -1 | cut -c1-150)"
done
