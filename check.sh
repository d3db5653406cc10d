#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
root=$(pwd)
[ -x bin/gocv ] || bash setup.sh >&2 || exit 2
t=""
[ "$2" = thorough ] && t="-thorough"
exec bin/gocv check -prop "$1" -root "$root" -contracts "$root/contracts" -overlay "$root/stubs/overlay.json" -ms 20000 $t
