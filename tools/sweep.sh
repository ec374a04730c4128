#!/bin/bash
# tools/sweep.sh [bug...]   runs every planted bug against the check of its property (on scratch copies)
V=$(dirname "$(realpath "$0")")/..
[ $# = 0 ] && set -- $(ls "$V/seeded")
for b in "$@"; do
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")
  echo "$b $($V/tools/trial.sh $V/seeded/$b/patch.diff $p 2>&1 | grep -v whitespace | tail -1)"
done
