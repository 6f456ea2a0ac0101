#!/bin/bash
# trybugs.sh [ID...]: runs the check of each planted bug's property against a scratch copy of /repo with the bug.
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for id; do
	p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
	s=$(mktemp -d /tmp/try.XXXXXX)
	cp -a /repo "$s/r"
	git -C "$s/r" apply "$here/seeded/$id/patch.diff" || echo "$id: patch does not apply"
	t0=$SECONDS
	out=$(VERIF_REPO=$s/r bash "$here/check.sh" ${TRY_PROP:-$p} ${TRY_TIER:-quick} 2>&1)
	rc=$?
	echo "$id ${TRY_PROP:-$p} rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -a '^violated' | head -1 | cut -c1-150)"
	rm -rf "$s"
done
