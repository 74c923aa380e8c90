#!/bin/bash
# runseed.sh ID...: apply each planted change to /repo, run its property's check, undo
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$i does not apply"; continue; }
  python3 /verif/checks/check.py $p > /tmp/seedout.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc"; grep -E "VIOLATION|failed oblig|^P[0-9]+:" /tmp/seedout.txt | cut -c1-260
done
