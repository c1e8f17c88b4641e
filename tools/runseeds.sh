#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to /repo, run the quick check of its property, undo it
cd "$(dirname "$0")/.."
export VERIF_SEED=1 VERIF_TIER=quick
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  t0=$(date +%s)
  out=$(python3-vt check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep VIOLATION | head -2)"
done
