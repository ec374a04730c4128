#!/bin/bash
# tools/validate.sh <bug>...   each planted bug: applies, keeps the 30 stable tests passing, demo 0 without and non-zero with it
one() {
  b=$1; s=/verif/seeded/$b
  d=$(mktemp -d /tmp/val.XXXXXX); mkdir $d/r $d/demo; git -C /repo archive HEAD | tar x -C $d/r
  cp $(ls -d $s/* | grep -v 'patch.diff\|meta.json') $d/demo/
  cd $d/r; bash $d/demo/demo.sh >$d/o1 2>&1; r0=$?
  git init -q . ; git apply $s/patch.diff || echo "APPLY FAILED $b"
  bash $d/demo/demo.sh >$d/o2 2>&1; r1=$?
  sed -e "s#cd /repo#cd $d/r#" /opt/vp/test.sh > $d/t.sh
  PYTHONPATH=$d/r bash $d/t.sh $d/t.json >$d/o3 2>&1
  t=$(/usr/bin/python3 - $d/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open(sys.argv[1]))['passed'])
print("tests-ok" if b<=t else "TESTS-FAIL %s"%sorted(b-t)[:3])
P
)
  ok=BAD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$t" = tests-ok ] && ok=ok
  echo "$ok $b demo:$r0/$r1 $t | $(tail -1 $d/o1 | cut -c1-80) | $(tail -1 $d/o2 | cut -c1-100)"
  cd /; rm -rf $d
}
export -f one
[ $# = 0 ] && set -- $(ls /verif/seeded)
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
