#!/bin/bash
# determinism.sh [RUNS] [SEEDS]: executes the runs of every property several times, split
# over processes in different ways, and compares the hash of each run's events,
# interleaving and steps. Prints what differs; exit 1 if anything does.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-2000}; seeds=${2:-"1 2 3"}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
work=$here/.work/det.$$; mkdir -p "$work"
trap 'find "$work" -mindepth 0 -delete 2>/dev/null' EXIT
cd "$here/instr" && go build -o "$work/instr" . || exit 2
for race in "" -race; do
	"$work/instr" -repo /repo -out "$work/ov$race" -std "$here/instr/std" $race || exit 2
	(cd "$here/sim" && go build $race -overlay "$work/ov$race/overlay.json" -o "$work/inisim$race" .) || exit 2
done
export GOMAXPROCS=1 TMPDIR=/simfs/tmp TZ=UTC
bad=0
for id in $("$work/inisim" list | cut -d' ' -f1); do
	b=$work/inisim; m=$n
	case $id in C14|C15|C16) b=$work/inisim-race; m=$((n / 10)); export VERIF_RACE_LOG=$work/race GORACE="log_path=$work/race halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3" ;; esac
	for s in $seeds; do
		for stride in 1 3 7; do
			for ((f = 0; f < stride; f++)); do
				"$b" worker -prop "$id" -seed "$s" -from "$f" -to "$m" -stride "$stride" -tier quick -per-run \
					-status "$work/st.$stride.$f" -hashes "$work/h.$stride.$f" >"$work/out.$stride.$f" 2>"$work/err.$stride.$f" &
			done
			wait
		done
		python3 - "$work" "$id" "$s" "$m" <<'P' || bad=1
import json,sys
w,id,s,m=sys.argv[1],sys.argv[2],sys.argv[3],int(sys.argv[4])
def load(stride):
    h=[None]*m
    for f in range(stride):
        t=open(f'{w}/out.{stride}.{f}').read()
        d=json.loads(t[t.index('{'):])
        for k,x in enumerate(d.get('run_hashes') or d.get('RunHashes') or []): h[f+k*stride]=x
    return h
a=load(1); n=0
for st in (3,7):
    b=load(st)
    for i,(x,y) in enumerate(zip(a,b)):
        if x!=y or x is None: n+=1; n<4 and print(id,'seed',s,'run',i,'differs',x,y)
print(id,'seed',s,m,'runs x 3:', 'same' if n==0 else f'{n} differ')
sys.exit(n>0)
P
	done
done
exit $bad
