#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator against /repo's working tree and searches.
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
cd "$(dirname "$0")" || exit 3
verif="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
scratch="$(mktemp -d /tmp/verifsim.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
if ! (cd sim && go test -c -o "$scratch/sim.test" . ) >"$scratch/build.log" 2>&1; then
	echo "check.sh: the simulator does not build against /repo:" >&2
	cat "$scratch/build.log" >&2
	exit 3
fi
if [ "$prop" = C19 ] || [ "$prop" = C21 ]; then # concurrent calls: built with data race detection, if it works here
	if (cd sim && go test -race -c -o "$scratch/race.test" .) >"$scratch/race.log" 2>&1 &&
		"$scratch/race.test" -prop "$prop" -runs 1 -workers 1 -verif "$scratch/smoke" 2>&1 | grep -q "1 of 1 runs"; then
		mv "$scratch/race.test" "$scratch/sim.test"
	else
		echo "check.sh: no data race detection in this environment"
	fi
fi
mkdir -p evidence replays
"$scratch/sim.test" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$verif"
