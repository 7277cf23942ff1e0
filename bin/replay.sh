#!/bin/bash
# replay.sh FILE: runs a replay file against /repo's working tree; exit 1 if the property is violated.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
scr=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 2
trap 'case "$scr" in /tmp/verif-sim.*) rm -rf -- "$scr" ;; esac' EXIT
race=
racearg=()
if grep -q '"race": true' "$1"; then
	race=race
	racearg=(-racebin "$scr/simrun-race")
fi
"$here/bin/build.sh" "$scr" $race || exit 2
"$scr/simrun" replay "${racearg[@]}" "$1"
