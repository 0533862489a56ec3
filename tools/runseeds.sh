#!/bin/bash
# runseeds.sh [ID...]: apply each planted change to /repo, run the check of its property, undo it.
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick bin/check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
