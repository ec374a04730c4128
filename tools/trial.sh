#!/bin/bash
# tools/trial.sh <patch.diff> <property>...   runs checks against a scratch copy of /repo with the patch applied
# (REV=1 reverses it; SEED sets VERIF_SEED). For experiments only: registered checks always run on /repo itself.
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/trial.XXXXXX)
git -C /repo archive HEAD | tar x -C "$d"
( cd "$d" && git init -q . && git apply ${REV:+-R} "$p" ) || { echo "PATCH FAILED"; rm -rf "$d"; exit 9; }
cd "$(dirname "$(realpath "$0")")/.."
for c in "$@"; do
  t0=$(date +%s)
  out=$(DST_REPO=$d VERIF_SEED=${SEED:-1} ./check $c 2>/dev/null); rc=$?
  echo "$c rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -v '^VIOLATION' | tail -1 | cut -c1-260)"
done
rm -rf "$d"
