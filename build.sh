#!/bin/bash
# build.sh OUTDIR [race]: builds the simulation binary (OUTDIR/sim, and
# OUTDIR/sim-race with "race") from the current working tree of /repo.
# Exit 0 ok, 3 the repository itself does not build, 4 the simulator does not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
repo=${VERIF_REPO:-/repo}
out=$1
want_race=${2:-}
mkdir -p "$out" || exit 4
log=$out/build.log
: > "$log"
( cd "$here/sim/instrument" && GOFLAGS= go build -o "$out/instrument" . ) >> "$log" 2>&1 || { cat "$log" >&2; exit 4; }
ok=0
# the full set of rewrites first; if a change to the repository does not get
# along with one of them, do without it (recorded in the evidence)
for off in "" map os sync time map,time,sync,os map,time,sync,os,yield; do
	"$out/instrument" -repo "$repo" -sim "$here/sim" -out "$out" -off "$off" >> "$log" 2>&1 || { rc=$?; break; }
	if ( cd "$repo" && go build -modfile="$out/go.mod" -overlay "$out/overlay.json" -o "$out/sim" ./zzsim/harness ) >> "$log" 2>&1; then
		ok=1
		break
	fi
done
if [ $ok = 0 ]; then
	cat "$log" >&2
	( cd "$repo" && go build -modfile="$out/go.mod" -o /dev/null ./... ) > /dev/null 2>&1 || exit 3
	exit 4
fi
# the shipped program, for the process-level scenarios
( cd "$repo" && go build -modfile="$out/go.mod" -o "$out/gpgpdump" . ) >> "$log" 2>&1 || { cat "$log" >&2; exit 3; }
if [ "$want_race" = race ]; then
	( cd "$repo" && CGO_ENABLED=1 go build -race -modfile="$out/go.mod" -overlay "$out/overlay.json" -o "$out/sim-race" ./zzsim/harness ) >> "$log" 2>&1 || { cat "$log" >&2; exit 4; }
fi
exit 0
