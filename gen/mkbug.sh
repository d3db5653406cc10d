#!/bin/bash
# mkbug.sh ID PROP PKG NEEDS BREAKS < demo_test.go : keeps the change made in the scratch worktree /tmp/br
# as seeded/ID, after checking that it compiles, passes the stable tests, and that the demonstration tells.
set -e
id=$1 prop=$2 pkg=$3
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/br diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cat > "$d/demo_test.go"
python3 - "$d" "$prop" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
case $pkg in
 chunk*|control*|handshake*|spec*) amf=0;;
 *) amf=1; rm -rf "$d/amf0"; cp -r /verif/stubs/amf0 "$d/amf0"; cp /verif/stubs/go.sum.repo "$d/go.sum.repo";;
esac
cat > "$d/demo.sh" <<D
#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken; run with cwd at the repository
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
repo=\$(pwd)
tmp=\$(mktemp -d)
trap 'rm -rf "\$tmp"' EXIT
D
if [ $amf = 0 ]; then cat >> "$d/demo.sh" <<D
cat > "\$tmp/overlay.json" <<J
{"Replace": {"\$repo/go.mod": "/opt/vp/mod/go.mod", "\$repo/go.sum": "/opt/vp/mod/go.sum",
 "\$repo/$pkg/zz_demo_test.go": "\$here/demo_test.go"}}
J
D
else cat >> "$d/demo.sh" <<D
printf 'module github.com/WatchBeam/rtmp\n\ngo 1.27\n\nrequire github.com/WatchBeam/amf0 v0.0.0\n\nreplace github.com/WatchBeam/amf0 => %s/amf0\n' "\$here" > "\$tmp/go.mod"
: > "\$tmp/go.sum"
cat > "\$tmp/overlay.json" <<J
{"Replace": {"\$repo/go.mod": "\$tmp/go.mod", "\$repo/go.sum": "\$tmp/go.sum",
 "\$repo/$pkg/zz_demo_test.go": "\$here/demo_test.go"}}
J
D
fi
cat >> "$d/demo.sh" <<D
for t in "\$repo"/$pkg/*_test.go; do
 [ -e "\$t" ] && sed -i "s#{\"Replace\": {#{\"Replace\": {\"\$t\": \"\",#" "\$tmp/overlay.json"
done
GOFLAGS="-mod=mod -overlay=\$tmp/overlay.json" go test -vet=off -count=1 -timeout 60s -run TestDemo ./$pkg
D
chmod +x "$d/demo.sh"
bash /verif/gen/trybug.sh "$id" demo
git -C /tmp/br checkout -q -- .
