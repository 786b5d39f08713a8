#!/bin/bash
# mkplant.sh ID PROPERTY PKGDIR [TAGS] : turns /repo's uncommitted change into seeded/ID; demo_test.go is read from stdin, needs/breaks from env NEEDS, BREAKS.
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
cat > $D/demo_test.go
cat > $D/demo.sh <<X
#!/bin/bash
# Runs demo_test.go inside $3; fails if the behaviour is broken.
D=\$(cd "\$(dirname "\$0")" && pwd)
[ ! -f /opt/vp/env.sh ] || . /opt/vp/env.sh
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
R=\$(pwd)
echo "{\"Replace\": {\"\$R/$3/zz_demo_test.go\": \"\$D/demo_test.go\"}}" > "\$T/o.json"
go test ${4:+-tags $4 }-vet=off -count=1 -timeout 200s -overlay "\$T/o.json" -run 'TestZZDemo' ./$3
X
python3 - "$D" "$2" <<X
import json,sys,os
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
