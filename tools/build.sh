#!/bin/bash
# Builds the instrumenter, instruments /repo's current tree into $1 and builds
# the simulation worker $1/worker for property $2. Nothing in /repo is written.
set -e
OUT=${1:-/verif/.build}
# the property to check: some need further programs of the repository mounted
case ${2:-} in
C22 | C23) G=1 ;;
esac
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo} # another tree only while developing the checks
. /opt/vp/env.sh
mkdir -p "$OUT"
(cd "$V/instr" && GOFLAGS=-buildvcs=false "$GO" build -o "$OUT/instr" .)
cp $REPO/SmartCache/sim/go.mod "$OUT/go.mod"
cp $REPO/SmartCache/sim/go.sum "$OUT/go.sum"
GUESTS=
if [ "${G:-}" ]; then
	GUESTS="$REPO/qLearning_smartCache=qlearn,$REPO/minio/generate_cert.go=cert"
fi
"$OUT/instr" -guests "$GUESTS" -go "$GO" -repo $REPO/SmartCache/sim -rt "$V/rt" -out "$OUT" -modfile "$OUT/go.mod"
cd $REPO/SmartCache/sim
"$GO" build -modfile "$OUT/go.mod" -overlay "$OUT/overlay.json" -o "$OUT/worker" .
