#!/bin/bash
# tryedit.sh PATCH PROP... : runs the checks of some properties on a scratch copy with a patch that keeps the behaviour
p=$(realpath "$1"); shift
. /opt/vp/env.sh
w=$(mktemp -d /tmp/te.XXXXXX); trap 'rm -rf "$w"' EXIT
r=$w/repo; git clone -q /repo "$r"; git -C "$r" apply "$p" || { echo "does not apply"; exit 1; }
v=$w/verif; mkdir "$v"
cp -r /verif/contracts /verif/replay /verif/stubs /verif/known_findings "$v/"
sed "s|/repo/|$r/|g; s|/verif/|$v/|g" /verif/stubs/overlay.json > "$w/overlay.json"
sed "s|/repo/|$r/|g" /opt/vp/mod/overlay.json > "$w/vp.json"
(cd "$r" && GOFLAGS="-mod=readonly -overlay=$w/vp.json" go build $PKGS && GOFLAGS="-mod=readonly -overlay=$w/vp.json" go test -vet=off -count=1 $PKGS 2>&1 | grep -v "^ok\|no test files") 
mkdir -p "$v/out" "$v/evidence" "$v/bin"; cp "${GOCV:-/verif/bin/gocv}" "$v/bin/gocv"
n=$(basename "$p" .diff)
for prop in "$@"; do
 s=$(date +%s)
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 "$v/bin/gocv" check -prop "$prop" -repo "$r" -root "$v" -contracts "$v/contracts" -overlay "$w/overlay.json" -ms 20000 > /tmp/bugs/$n.$prop.log 2>&1
 echo "$n $prop exit $? $(tail -1 /tmp/bugs/$n.$prop.log | cut -c1-140) $(( $(date +%s) - s )) s"
 grep -E "^(failed obl|bounded stand-in)" /tmp/bugs/$n.$prop.log | cut -c1-220 | head -6
done
