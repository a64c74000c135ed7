#!/bin/bash
# replay.sh <replay file>: executes exactly the recorded plan against /repo's working tree.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
f="$(readlink -f "$1")"
cd "$(dirname "$0")/sim" || exit 3
scratch="$(mktemp -d /tmp/verifsim.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
race=""
grep -q '"scenario": "\(isolate\|async\)"' "$f" && race=-race
go test $race -c -o "$scratch/sim.test" . || go test -c -o "$scratch/sim.test" . || exit 3
"$scratch/sim.test" -replay "$f"
