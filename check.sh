#!/bin/bash
# check.sh PROPERTY TIER: decide one property against /repo's working tree.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check failed to run.
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
here=$(cd "$(dirname "$0")" && pwd)
dir=$here/.build/$prop.$$
trap 'rm -rf "$here/.build/$prop.$$"' EXIT
mkdir -p "$dir" "$here/evidence" || exit 2
race=
[ "$prop" = C05 ] && race=race
if ! bash "$here/build.sh" "$dir" $race >"$dir/build.log" 2>&1; then
	echo "check: the simulator does not build:" >&2
	head -50 "$dir/build.log" >&2
	exit 2
fi
"$dir/sim" check -prop "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$prop.json" -known "$here/known-findings.txt" ${race:+-race "$dir/racesim"}
