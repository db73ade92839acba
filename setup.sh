#!/bin/bash
# warms the Go build cache; the checks rebuild what they need by themselves
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" && go test -count=1 -run XXX ./... >/dev/null 2>&1
exit 0
