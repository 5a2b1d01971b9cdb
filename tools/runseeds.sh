#!/bin/bash
# usage: runseeds.sh [ID...] : runs the check of its property on the scratch copy /tmp/mut/r with each planted bug.
cd /verif/seeded || exit 1
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /tmp/mut/r checkout -q -- . && git -C /tmp/mut/r apply $PWD/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && VERIF_REPO=/tmp/mut/r ./check $p 2>&1); rc=$?
  echo "$id $p: exit $rc, $(echo "$out" | grep -c "^VIOLATION property=$p ") violation lines; $(echo "$out" | tail -1)"
done
git -C /tmp/mut/r checkout -q -- .
