#!/bin/bash
# replay.sh FILE: runs the scenario of a replay file against /repo's tree.
V=$(cd "$(dirname "$0")" && pwd)
P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$1")
case $P in C2[4-9] | C3?)
	PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec python3 "$V/pysim/main.py" replay "$1"
	;;
esac
mkdir -p "$V/.build"
B=$(mktemp -d "$V/.build/run.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
bash "$V/tools/build.sh" "$B" "$P" >"$B/build.log" 2>&1 || { tail -n 40 "$B/build.log" >&2; exit 2; }
"$B/worker" replay -file "$1"
