#!/bin/bash
# check.sh ID: rebuild the simulator against /repo's working tree and decide property ID.
# check.sh replay FILE: the same, but only replays FILE (a path a VIOLATION line named).
# Exit 0: held; 1: violated (VIOLATION line printed); 2: the check could not run.
id="$1"; shift
[ "$id" = replay ] && file="$(readlink -f "$1")"
cd "$(dirname "$0")" || exit 2
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
case "$id" in C06|C07) what=bin;; replay) what=bin;; *) what=;; esac
if ! bash sim/build.sh $what >"$log" 2>&1; then
  cat "$log" >&2
  echo "check.sh: the simulator did not build against /repo" >&2
  exit 2
fi
mkdir -p evidence replays
if [ "$id" = replay ]; then sim/target/debug/geosim replay "$file"; exit; fi
sim/target/debug/geosim check "$id" --evidence "evidence/$id.json" --replays "$PWD/replays" "$@"
