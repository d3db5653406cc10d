#!/bin/bash
# The verifier against small bodies with known answers: every GoodX has to be accepted, every BadX refused.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
gocv=${GOCV:-../bin/gocv}
d=$(pwd)
timeout 600 $gocv func -repo "$d/mod" -contracts "$d/contracts" -overlay "$d/overlay.json" '*' > ../out/selftest.log 2>&1 || { cat ../out/selftest.log; exit 1; }
awk '/^(ok|FAIL) / {
	name = $0; n++
	bad = ($0 ~ /Bad[A-Z]/)
	if (bad != ($1 == "FAIL")) { print "wrong answer: " $0; w++ }
}
END { print n+0 " bodies, " w+0 " wrong answers"; exit (w > 0 || n < 60) }' ../out/selftest.log
