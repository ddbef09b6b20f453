#!/bin/bash
# replay.sh FILE: build from /repo's working tree and repeat a recorded violation.
# Exit 1 and a VIOLATION line: it shows again. Exit 0: it does not.
file=$(realpath "$1") || exit 2
here=$(cd "$(dirname "$0")" && pwd)
dir=$here/.build/replay.$$
trap 'rm -rf "$here/.build/replay.$$"' EXIT
race=
grep -q '^ "race": true' "$file" && race=race
if ! bash "$here/build.sh" "$dir" $race >&2; then
	exit 2
fi
"$dir/sim" replay -known "$here/known-findings.txt" -race "$dir/racesim" "$file"
