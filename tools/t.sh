#!/bin/bash
# tools/t.sh PKG [SEED [go test args]]: run the tests of one check and print a short report
. /opt/vp/env.sh
cd "$(dirname "$0")/../harness"
out=$(mktemp -d); export VERIF_OUT=$out
export VERIF_SEED=${2:-1}
go test -count=1 ./$1 -rapid.nofailfile -timeout 3000s "${@:3}" > $out/log 2>&1; rc=$?
python3 - "$out" <<'P'
import json,glob,sys
n=0
for f in sorted(glob.glob(sys.argv[1]+"/*.json")):
    s=json.load(open(f)); n+=1
    if s.get("samples"): s.pop("samples")
    r=s.pop("rule",None); fl=s.pop("failure",None)
    print(json.dumps(s)[:900])
    if fl: print(fl if len(fl)<6000 else fl[:3500]+"\n.....\n"+fl[-2500:])
if n==0: print(open(sys.argv[1]+"/log").read()[-3000:])
P
[ $rc = 0 ] || grep -vE '^\s*(gen.go|prun.go|c..._test.go:.*draw)' $out/log | grep -E 'panic|FAIL|fatal|DATA RACE|\.go:[0-9]+' | head -${LINES_MAX:-12} | cut -c1-300
rm -rf "$out"; echo rc=$rc
