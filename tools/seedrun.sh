#!/bin/bash
# seedrun.sh ID...: applies each seeded change to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick ./check $p > /tmp/seedrun.$id.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m2 VIOLATION /tmp/seedrun.$id.out | tr '\n' ' ')"
done
