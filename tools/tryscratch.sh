#!/bin/bash
# tools/tryscratch.sh ID…: run the quick check of each planted bug against a scratch copy of /repo with the bug applied
# (developer aid; leaves /repo alone)
for id in "$@"; do
  d=$(mktemp -d /tmp/gosym-seed-XXXXXX)
  cp -a /repo "$d/repo"
  git -C "$d/repo" checkout -q -- . && git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || echo "$id: does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  (ulimit -v 26000000; timeout 600 /verif/bin/check "$p" quick -no-evidence -repo "$d/repo" >"$d/out" 2>&1; echo "$id $p exit=$? $(grep -A1 VIOLATION "$d/out" | grep '  Verif' | head -1) $(grep INCOMPLETE "$d/out" | head -1)")
  rm -rf "$d"
done
