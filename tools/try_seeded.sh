#!/bin/bash
# try_seeded.sh [id...]: applies each planted bug to /repo, runs its property's quick check, undoes it
cd "$(dirname "$0")/.."
for i in "${@:-$(ls seeded)}"; do for i in $i; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 run_check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -c VIOLATION) $(echo "$out" | grep -m1 'violation\|VIOLATION' | cut -c1-200)"
done; done
