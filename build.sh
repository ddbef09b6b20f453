#!/bin/bash
# build.sh DIR [race]: build the simulator from /repo's working tree into DIR,
# with "race" also the build that detects data races.
#
# The packages of /repo are compiled from an instrumented copy (see sim/instrument).
# Should that copy not compile although the packages do, less is instrumented.
out=$1
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p "$out/ov" && cd "$here/sim" || exit 2
for mode in full sync plain; do
	go run ./instrument $mode /repo "$(go env GOROOT)" "$out/ov" || continue
	go build -overlay "$out/ov/overlay.json" -o "$out/sim" ./cmd/sim || continue
	if [ "$2" = race ]; then
		go build -race -overlay "$out/ov/overlay.json" -o "$out/racesim" ./cmd/sim || continue
	fi
	echo $mode >"$out/mode"
	exit 0
done
exit 2
