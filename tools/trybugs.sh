#!/bin/bash
# trybugs.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it; one line each.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  for q in ${PROPS:-$p}; do
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh $q >/tmp/trybug.out 2>&1; rc=$?
    echo "$id: $q rc=$rc $(($(date +%s)-s))s $(grep -m1 -A3 '^VIOLATION' /tmp/trybug.out | tr '\n' ' ' | cut -c1-260)"
  done
  git -C /repo checkout -q -- .
done
