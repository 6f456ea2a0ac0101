#!/bin/bash
# check.sh PROPERTY [quick|thorough]      decides a property on /repo's working tree
# check.sh --replay FILE                  replays a violation on /repo's working tree
# Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
export VERIF_SCRATCH=$scratch
race=
case "${1:-}" in
--replay)
	grep -q '"race": true' "$2" && race=race
	bash "$here/build.sh" "$scratch/b" $race || exit 2
	bin=$scratch/b/sim
	[ -n "$race" ] && bin=$scratch/b/sim-race
	GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3" "$bin" replay "$2"
	exit $?
	;;
C12) race=race ;;
esac
tier=${2:-${VERIF_TIER:-quick}}
bash "$here/build.sh" "$scratch/b" $race || { echo "the simulation build failed" >&2; exit 2; }
"$scratch/b/sim" check "$1" "$tier"
exit $?
