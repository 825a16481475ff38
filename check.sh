#!/bin/bash
# check.sh <property> [quick|thorough]: builds the instrumented service from
# /repo's working tree together with the explorer and decides one property.
prop=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
scr=$(mktemp -d /tmp/verif-scr.XXXXXX) || exit 3
cleanup() { chmod -R u+rwX "$scr" 2>/dev/null; rm -rf "$scr"; }
trap cleanup EXIT
trap 'exit 3' INT TERM
export TMPDIR="$scr"
(cd "$here/tools/instr" && go build -o "$scr/instr" .) || { echo "check: instrumenter does not build" >&2; exit 3; }
mkdir "$scr/src" || exit 3
"$scr/instr" -repo /repo -out "$scr/src" -mc "$here/mc" || { echo "check: instrumenting /repo failed" >&2; exit 3; }
(cd "$scr/src" && go build -o "$scr/mcbin" ./internal/vharness/main) || { echo "check: the instrumented tree does not build" >&2; exit 3; }
"$scr/mcbin" -prop "$prop" -tier "$tier" -evidence "$here/evidence/$prop.json" -known "$here/known_findings.txt"
rc=$?
exit $rc
