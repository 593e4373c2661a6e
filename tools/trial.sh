#!/bin/bash
# trial.sh SEED... : apply each planted change to /repo, run its property's quick check, undo
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  timeout 900 ./check.sh $p quick > /tmp/trial.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(grep -c VIOLATION /tmp/trial.out) $(grep -m1 "^  $p" /tmp/trial.out | cut -c1-160)"
done
