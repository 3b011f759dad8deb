#!/bin/bash
# replay.sh <replay file>: run the recorded choice sequence again on /repo's
# current tree, with a log of the operations.
set -u
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
id=$(sed -n 's/^property: //p' "$f" | head -1)
mc=$(bash "$here/build.sh" "$id") || exit 2
exec "$mc" replay "$f"
