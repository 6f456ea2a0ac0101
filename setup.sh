#!/bin/bash
# Builds everything once (fills the Go build cache); every check builds again
# from /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 1
trap 'rm -rf "$d"' EXIT
bash "$here/build.sh" "$d" race
