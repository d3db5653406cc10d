#!/bin/bash
# drvbug.sh ID [SECS] : only the input search, against a patched scratch copy
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
. /opt/vp/env.sh
w=$(mktemp -d /tmp/tb.XXXXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo $w/repo; git -C $w/repo apply $d/patch.diff
sed "s|/repo/|$w/repo/|g" /verif/stubs/overlay.json > "$w/overlay.json"
r=""; [ $prop = C14 ] && r=-race
echo "$id: $(${GOCV:-/verif/bin/gocv} replay -prop $prop -secs ${2:-15} $r -repo $w/repo -overlay $w/overlay.json 2>&1 | tail -1 | cut -c1-250)"
