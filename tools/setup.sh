#!/bin/bash
# Builds everything once (fills the build cache) and runs one small check.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/.build" "$V/evidence" "$V/replays"
bash "$V/tools/build.sh" "$V/.build"
"$V/.build/worker" debug -prop C02 -n 20 >/dev/null
B=$(mktemp -d "$V/.build/set.XXXXXX")
bash "$V/tools/build.sh" "$B" C22
"$B/worker" debug -prop C22 -n 20 >/dev/null
rm -rf "$B"
echo ready
