#!/bin/bash
# check.sh <property> <quick|thorough>: build the checker from /repo's current
# tree and explore one property. Exit 0: held; 1: VIOLATION; 2: no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}
mkdir -p "$here/evidence"
log=$(mktemp)
if ! mc=$(bash "$here/build.sh" "$id" 2>"$log"); then
  tail -40 "$log"; rm -f "$log"
  echo "the checker does not build against /repo"; exit 2
fi
rm -f "$log"
cd "$here" || exit 2
exec "$mc" "$id" --tier "$tier" \
  --evidence "evidence/$id.json" --replay "evidence/$id.replay.txt" --known known-findings.txt
