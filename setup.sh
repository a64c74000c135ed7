#!/bin/bash
# Checks that the simulator builds offline from the committed files; every check builds it again.
cd "$(dirname "$0")/sim" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
scratch="$(mktemp -d /tmp/verifsim.XXXXXX)" || exit 3
trap 'rm -rf "$scratch"' EXIT
go test -c -o "$scratch/sim.test" .
