#!/bin/bash
# check.sh <property> [more flags of "inisim check"]: builds go-ini/ini from /repo's working
# tree into the simulator and runs one property's check.
#   VERIF_SEED  seed of every random choice (default 1)
#   VERIF_TIER  quick (default) or thorough
# check.sh replay <file>: replays a file a VIOLATION line pointed to.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}
shift
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
case "$seed" in ''|*[!0-9]*) seed=$(printf '%s' "$seed" | cksum | cut -d' ' -f1) ;; esac
file=
if [ "$id" = replay ]; then
	file=${1:?replay file}
	shift
	id=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$file" | head -1)
fi
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOROOT=${GOROOT:-/opt/veriftools/go1.27.3}
export PATH="$GOROOT/bin:$PATH"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOENV=off GOTELEMETRY=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root}
unset GODEBUG GOEXPERIMENT GORACE GOMAXPROCS
start=$(date +%s%3N)
fail() { echo "check error: $*" >&2; exit 2; }
race=
case "$id" in C14|C15|C16) race=-race ;; esac
work=$here/.work/$id.$$
mkdir -p "$work" || fail "cannot create $work"
trap 'find "$work" -mindepth 0 -delete 2>/dev/null' EXIT
(cd "$here/instr" && go build -o "$work/instr" .) || fail "building the instrumenter"
"$work/instr" -repo /repo -out "$work/ov" -std "$here/instr/std" $race || fail "instrumenting /repo"
(cd "$here/sim" && go build $race -overlay "$work/ov/overlay.json" -o "$work/inisim" .) || fail "building the simulator with /repo"
end=$(date +%s%3N)
cd "$here" || fail cd
if [ -n "$file" ]; then
	GOMAXPROCS=1 TMPDIR=/simfs/tmp TZ=UTC VERIF_RACE_LOG="$work/race" \
		GORACE="log_path=$work/race halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3" \
		"$work/inisim" replay -prop "$id" -file "$file" -v
	exit $?
fi
"$work/inisim" check -prop "$id" -seed "$seed" -tier "$tier" -verif "$here" -work "$work" -build-ms $((end - start)) "$@"
