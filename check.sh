#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the instrumented program from
# /repo's current tree and explores. Exit 0 held, 1 VIOLATION, 2 trouble.
V=$(cd "$(dirname "$0")" && pwd)
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $SEED in ''|*[!0-9]*) SEED=1;; esac
# the Python parts run under their own simulator
case $P in C2[4-9] | C3[01])
	. "$V/tools/budget.sh"
	read -r N SECS <<<"$(budget "$P" "$TIER")"
	PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 python3 "$V/pysim/main.py" check "$P" "$TIER" "$SEED" "$V" "$N" "$SECS"
	R=$?
	case $R in 0 | 1) exit $R ;; esac
	exit 2
	;;
esac
mkdir -p "$V/.build"
B=$(mktemp -d "$V/.build/run.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
if ! bash "$V/tools/build.sh" "$B" "$P" >"$B/build.log" 2>&1; then
	echo "verif: cannot build the simulation of /repo" >&2
	tail -n 40 "$B/build.log" >&2
	exit 2
fi
. "$V/tools/budget.sh"
read -r N SECS <<<"$(budget "$P" "$TIER")"
"$B/worker" check -prop "$P" -tier "$TIER" -seed "$SEED" -home "$V" -n "$N" -secs "$SECS"
R=$?
case $R in 0|1) exit $R;; esac
exit 2
