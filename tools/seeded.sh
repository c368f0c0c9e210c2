#!/bin/bash
# Development aid, not a check: apply each planted bug, run its property's
# check, undo it. Usage: tools/seeded.sh [ID...]
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for id; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  t0=$SECONDS
  out=$(bash ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id $p caught $((SECONDS-t0))s"; else echo "$id $p MISSED rc=$rc"; fi
done
