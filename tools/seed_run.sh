#!/bin/bash
# Applies each planted bug given (default: all) to /repo in turn, runs its property's quick check and undoes it.
# usage: tools/seed_run.sh [id...]
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash ./check.sh "$prop" 2>&1); r=$?
  git -C /repo checkout -q -- .
  v=$(grep -m1 "^VIOLATION property=$prop" <<<"$out")
  if [ $r = 1 ] && [ -n "$v" ]; then echo "$id: CAUGHT by $prop ($(( $(date +%s)-s )) s): $(grep -m1 -B0 -A0 -i 'class\|what' <<<"$out" | cut -c1-160)"
  else echo "$id: MISSED by $prop (exit $r, $(( $(date +%s)-s )) s)"; fi
done
