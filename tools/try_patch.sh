#!/bin/bash
# try_patch.sh <patch> [ids...]: apply a change to /repo, run the quick checks
# (all by default), undo it, and list what each check said.
p=$(realpath "$1"); shift
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(seq -f 'C%02g' 1 30))
here=$(cd "$(dirname "$0")/.." && pwd)
git -C /repo apply ${REV:+-R} "$p" || exit 3
caught=(); err=()
for i in "${ids[@]}"; do
  out=$(timeout 900 bash "$here/check.sh" "$i" quick 2>&1); rc=$?
  if [ $rc = 1 ]; then caught+=("$i"); [ -n "$V" ] && echo "$out" | grep -v KNOWN | tail -6; elif [ $rc != 0 ]; then err+=("$i:$rc"); echo "$out" | tail -5; fi
done
git -C /repo checkout -q -- .
echo "$(basename $(dirname $p))/$(basename $p): caught by [${caught[*]}] errors [${err[*]}]"
