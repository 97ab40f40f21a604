#!/bin/bash
# detect.sh [ids...]: run the check of each planted bug's property with the bug applied to /repo, then undo it.
cd /verif/seeded
for s in ${@:-*}; do
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $s/meta.json)
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  out=$(bash /verif/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -m1 -A1 VIOLATION | tail -1 | cut -c1-160)"
done
