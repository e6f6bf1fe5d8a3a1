#!/bin/bash
# determinism.sh [N] [SEEDS]: every property's first N scenarios of some seeds,
# each run in several processes that differ in how the scenarios are dealt out,
# in GOMAXPROCS and in load; the hashes of everything recorded must agree.
N=${1:-160}
SEEDS=${2:-"1 2 3"}
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/.build"
B=$(mktemp -d "$V/.build/det.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
bash "$V/tools/build.sh" "$B" C22 || exit 2
bad=0
for i in $(seq 1 23); do
	p=C$(printf %02d "$i")
	for s in $SEEDS; do
		for k in 1 2 3 5 7; do # so many processes
			for j in $(seq 0 $((k - 1))); do
				GOMAXPROCS=$k "$B/worker" hash -prop "$p" -seed "$s" -from "$j" -stride "$k" -n "$N" >"$B/$k.$j" 2>&1 &
			done
			wait
			cat "$B/$k".* | sort >"$B/all.$k"
			rm -f "$B/$k".*
			if ! cmp -s "$B/all.1" "$B/all.$k"; then
				echo "$p seed $s: $k processes differ"
				diff "$B/all.1" "$B/all.$k" | head -4
				bad=1
			fi
		done
	done
	echo "$p: $(wc -l <"$B/all.1") scenarios x seeds x 18 processes"
done
exit $bad
