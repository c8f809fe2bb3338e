#!/bin/bash
# mkseed.sh ID PROPERTY PKG NEEDS WHAT: turns the uncommitted change in the
# scratch copy /tmp/w into seeded/ID, with /tmp/demo_test.go as demonstration,
# after confirming that it builds, passes the stable tests and that the
# demonstration tells the two trees apart.
set -e
id=$1 prop=$2 pkg=$3 needs=$4 what=$5
. /opt/vp/env.sh
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
[ -s $d/patch.diff ]
cp /tmp/demo_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<EOF
#!/bin/bash
# Demonstration for $id: an in-package test laid over $pkg.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d="\$(cd "\$(dirname "\$0")" && pwd)"
t="\$(mktemp -d)"
trap 'rm -rf "\$t"' EXIT
cp "\$d/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_verif_test.go\":\"\$t/demo_test.go\"}}" > "\$t/overlay.json"
go test -count=1 -overlay "\$t/overlay.json" -run 'TestDemo' -timeout 120s ./$pkg
EOF
chmod +x $d/demo.sh
python3 - "$prop" "$needs" "$what" > $d/meta.json <<'EOF'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
EOF
ok=1
(cd /repo && bash $d/demo.sh >/tmp/demo.base 2>&1) || { echo "demo fails on the unchanged tree"; tail -20 /tmp/demo.base; ok=0; }
(cd /tmp/w && go build ./... && go vet ./$pkg >/dev/null) || { echo "does not build"; ok=0; }
(cd /tmp/w && bash $d/demo.sh >/tmp/demo.mut 2>&1) && { echo "demo passes with the patch"; ok=0; }
tail -5 /tmp/demo.mut | cut -c1-200
(cd /tmp/w && go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok" | head -${TL:-6} | grep . ) && { echo "tests fail"; ok=0; }
[ $ok = 1 ] || { rm -rf $d; echo REJECTED $id; exit 1; }
/verif/check.sh build
/verif/bin/spagoverif -property $(echo "${6:-$prop}" | tr " " ,) -repo /tmp/w -verif /tmp/ev | cut -c1-250 | head -${LINES_MAX:-12}
git -C /tmp/w checkout -q -- .
