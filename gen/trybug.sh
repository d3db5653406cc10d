#!/bin/bash
# trybug.sh ID [demo|check|all] [PROP] : confirm a seeded change in a scratch copy of the repository, and run
# its property's check against the copy. Never touches /repo, so it can run beside other checks.
id=$1 what=${2:-all}
d=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id
prop=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
. /opt/vp/env.sh
mkdir -p /tmp/bugs
w=$(mktemp -d /tmp/tb.XXXXXX)
trap 'rm -rf "$w"' EXIT
r=$w/repo
git clone -q /repo "$r" || exit 2
sed "s|/repo/|$r/|g" /opt/vp/mod/overlay.json > "$w/vp.json"
sed "s|/repo/|$r/|g" /verif/stubs/overlay.json > "$w/overlay.json"
cd "$r" || exit 2
vp="-mod=readonly -overlay=$w/vp.json"
if [ "$what" != check ]; then
 bash "$d/demo.sh" >/tmp/bugs/$id.clean 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -20 /tmp/bugs/$id.clean; exit 1; }
fi
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
if [ "$what" != check ]; then
 GOFLAGS=$vp go build $PKGS >/tmp/bugs/$id.build 2>&1 || { echo "$id: does not build"; tail -5 /tmp/bugs/$id.build; exit 1; }
 GOFLAGS=$vp go test -json -vet=off -count=1 -timeout 5m $PKGS > "$w/t.log"
 python3 /opt/vp/results.py /tmp/bugs/$id.json "gojson:$w/t.log" >/dev/null 2>&1
 python3 - /tmp/bugs/$id.json <<'P' || { echo "$id: stable tests fail"; exit 1; }
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(r.get('passed',[]))
miss=[t for t in b['stable'] if t not in p]
print("stable tests failing:",miss) if miss else None
sys.exit(1 if miss else 0)
P
 if bash "$d/demo.sh" >/tmp/bugs/$id.bug 2>&1; then echo "$id: demo passes with the change"; exit 1; fi
 echo "$id: confirmed ($(grep -m1 -E 'demo_test.go|panic|DATA RACE' /tmp/bugs/$id.bug))"
fi
if [ "$what" != demo ]; then
 v=$w/verif; mkdir "$v"; G=${GOCV:-/verif/bin/gocv}
 cp -r /verif/contracts /verif/replay /verif/stubs /verif/known_findings "$v/"
 sed -i "s|/verif/|$v/|g" "$w/overlay.json"
 mkdir -p "$v/out" "$v/evidence" "$v/bin"; cp "$G" "$v/bin/gocv"
 s=$(date +%s)
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 "$v/bin/gocv" check -prop "$prop" -repo "$r" -root "$v" -contracts "$v/contracts" -overlay "$w/overlay.json" -ms 20000 > /tmp/bugs/$id.check 2>&1
 echo "$id: $prop exit $? $(grep -c '^failed obl' /tmp/bugs/$id.check) failed; $(grep -m1 'VIOLATION' /tmp/bugs/$id.check | grep -o 'no-failing.*') | $(grep -m1 '^failing input' /tmp/bugs/$id.check | cut -c1-150) | $(tail -1 /tmp/bugs/$id.check | cut -c1-100) $(( $(date +%s) - s )) s"
fi
