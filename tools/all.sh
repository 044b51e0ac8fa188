#!/bin/bash
# all.sh TIER [IDs]: runs every check of a tier and prints one line each.
cd "$(dirname "$0")/.." || exit 2
t=$1; shift
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || seq -f C%02g 1 26)}; do
  s=$(date +%s); out=$(./check.sh $p $t 2>&1); rc=$?; e=$(date +%s)
  echo "$p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
  echo "$out" | grep incomplete | cut -c1-200
done
