#!/bin/bash
# tools/seedcheck.sh [-n] ID...: for each planted bug: demo on the clean tree, then with the patch: build, stable tests
# (skipped with -n), demo, the property's check. The patch is undone afterwards.
V=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
tests=1; [ "$1" = -n ] && { tests=0; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp $d/* $t/; rm -f $t/patch.diff $t/meta.json
  (cd /repo && timeout 300 bash $t/demo.sh > $t/out0 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > $t/build 2>&1; b=$?
  (cd /repo && timeout 300 bash $t/demo.sh > $t/out1 2>&1); e=$?
  ts=skipped
  if [ $tests = 1 ]; then
    bash /opt/vp/test.sh $t/res.json > $t/testlog 2>&1
    ts=$(python3 - $t/res.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try: r=json.load(open(sys.argv[1]))
except Exception as x: print("no-result",x); sys.exit()
pas=set(r.get('passed',[]))
m=sorted(b-pas)
print("ok" if not m else "FAILED:%d %s"%(len(m), m[:3]))
P
)
  fi
  (cd $V && VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py $p > $t/chk 2>&1); c=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$p" $t/chk)
  echo "$id [$p]: demo clean=$a patched=$e build=$b tests=$ts check=$c violation=$v $( [ $a = 0 ] && [ $e != 0 ] && [ $b = 0 ] && echo COUNTS || echo BAD ) $( [ $c = 1 ] && [ $v = 1 ] && echo CAUGHT || echo MISSED )"
  [ -n "$VERBOSE" ] && { head -c 1500 $t/out0; echo ---; head -c 2500 $t/out1; echo ---; head -c 2500 $t/chk; }
  rm -rf "$t"
done
