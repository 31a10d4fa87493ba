#!/bin/bash
# tools/seedcatch.sh ID...: runs the property's quick check against each planted bug in the scratch copy
S=/tmp/sr
for id in "$@"; do
  pid=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $S checkout -q -- . ; git -C $S apply /verif/seeded/$id/patch.diff || { echo "$id no apply"; continue; }
  t0=$(date +%s)
  VERIF_REPO=$S VERIF_BUILD=/tmp/srb VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 /verif/checks/run.py $pid quick > /tmp/sr-catch.log 2>&1; rc=$?
  echo "$id: rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 ^VIOLATION /tmp/sr-catch.log)"
  git -C $S checkout -q -- .
done
