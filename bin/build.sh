#!/bin/bash
# build.sh DIR [race]: builds the simulator from /repo's working tree into DIR.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1
export GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local
cd "$here/sim" || exit 2
go build -o "$out/instrument" ./cmd/instrument || exit 2
"$out/instrument" /repo "$out/ins" >"$out/instrument.log" 2>&1 || { cat "$out/instrument.log" >&2; exit 2; }
go build -overlay "$out/ins/overlay.json" -o "$out/simrun" ./cmd/simrun || exit 2
if [ "${2:-}" = race ]; then
	go run ./cmd/poolpatch "$out/ins/overlay.json" "$out/ins" || exit 2
	go build -race -overlay "$out/ins/overlay-race.json" -o "$out/simrun-race" ./cmd/simrun || exit 2
fi
exit 0
