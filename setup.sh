#!/bin/bash
# Warms the build cache and checks that the simulator builds (both variants). Checks build
# everything again from /repo's working tree.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOROOT=${GOROOT:-/opt/veriftools/go1.27.3}
export PATH="$GOROOT/bin:$PATH"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOENV=off GOTELEMETRY=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root}
work=$here/.work/setup.$$
mkdir -p "$work"
trap 'find "$work" -mindepth 0 -delete 2>/dev/null' EXIT
cd "$here/instr" && go build -o "$work/instr" .
for race in "" -race; do
	"$work/instr" -repo /repo -out "$work/ov$race" -std "$here/instr/std" $race
	cd "$here/sim" && go build $race -overlay "$work/ov$race/overlay.json" -o "$work/inisim$race" .
done
echo "setup done"
