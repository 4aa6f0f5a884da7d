#!/bin/bash
# usage: catch.sh [seeded id ...]; runs the check of each planted bug's property against it (in /repo, undone afterwards)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  out=$(timeout 900 bin/check.sh ${PROP:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v '^VIOLATION' | head -c 200 | tr '\n' ' ')"
done
