#!/bin/bash
# runseed.sh ID... : applies each planted bug to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 2
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  s=$(date +%s); out=$(./check.sh $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
  [ $rc = 1 ] || echo "$out" | tail -3 | cut -c1-300
done
