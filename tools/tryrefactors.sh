#!/bin/bash
# tryrefactors.sh [NAMES]: every quick check on each behaviour-preserving edit in tools/refactors;
# they all have to stay quiet. Applies to /repo and undoes it.
cd "$(dirname "$0")/.." || exit 2
names="$*"; [ -n "$names" ] || names="$(cd tools/refactors && ls *.diff | sed 's/\.diff$//')"
trap 'git -C /repo checkout -q -- .' EXIT
for n in $names; do
  git -C /repo apply "$PWD/tools/refactors/$n.diff" || exit 2
  for id in ${CHECKS:-C01 C02 C03 C04 C05 C06 C07 C08 C09}; do
    VERIF_SEED=1 VERIF_TIER=quick ./check.sh $id --tier quick >/tmp/ref.$n.$id.log 2>&1; rc=$?
    echo "$n $id rc=$rc $(grep -m1 -E 'VIOLATION|held' /tmp/ref.$n.$id.log | cut -c1-160)"
  done
  git -C /repo checkout -q -- .
done
