#!/bin/bash
# catch.sh [ID...]: for each planted bug, applies it to /repo, runs its property's quick check, undoes it, and reports whether it was caught.
cd /verif
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo checkout -q -- . && git -C /repo apply $PWD/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$SECONDS; timeout 900 python3 run.py $p quick > /tmp/catch_$id.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $((SECONDS-s))s $(grep -m1 -c "^VIOLATION property=$p" /tmp/catch_$id.log) $(grep -m1 '^VIOLATION' -A1 /tmp/catch_$id.log | tail -1 | cut -c1-150)"
done
