#!/bin/bash
# tools/mkseed.sh ID PROP PKG "needs" "breaks": takes the uncommitted change of /repo as patch.diff, makes demo.sh running demo_test.go in PKG
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
python3 - "$d" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<X
#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken. Run in /repo after the build.
. /opt/vp/env.sh
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
echo "{\"Replace\": {\"\$PWD/$3/zz_demo_test.go\": \"\$d/demo_test.go\"}}" > \$t/overlay.json
go test -vet=off -count=1 -overlay \$t/overlay.json -run '^TestZZDemo\$' -timeout 250s ./$3
X
cat $d/patch.diff | head -40
