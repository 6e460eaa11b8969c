#!/bin/bash
# bugs.sh ID... : runs the check of the planted bug's property against /repo with the bug applied, then reverts
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; continue; }
  out=$(cd /verif && timeout 900 python3-vt vf/check.py $P 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $ID ($P) rc=$rc"; echo "$out" | tail -4 | cut -c1-300
done
