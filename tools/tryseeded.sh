#!/bin/bash
# tryseeded.sh ID...: apply each planted bug to /repo, run the check of its property, undo it.
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "NOAPPLY $id"; continue; }
  o=$(VERIF_SEED=1 VERIF_TIER=quick ./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$rc $(echo "$o" | grep -E '^\['$p'\] run' | tail -1 | cut -c1-200)"
done
