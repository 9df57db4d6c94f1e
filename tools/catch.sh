#!/bin/bash
# catch.sh SEED...: apply a seeded change to /repo, run its property's check, undo it
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  t0=$(date +%s)
  timeout 900 bash check.sh $p > /tmp/catch.$s.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c '^FAILED' /tmp/catch.$s.out) failed; $(grep VIOLATION /tmp/catch.$s.out)"
done
