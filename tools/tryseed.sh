#!/bin/bash
# tools/tryseed.sh ID... : run the property's quick check against planted changes (developer aid; no check uses it)
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(bin/check $p quick -no-evidence 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p exit=$rc $(echo "$out" | grep -A1 -m1 VIOLATION | tail -1)"
done
