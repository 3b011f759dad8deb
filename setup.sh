#!/bin/bash
# Build the checker in its three variants.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
for id in C01 C28 C30; do bash "$here/build.sh" "$id"; done
