#!/bin/bash
# check.sh PROPERTY quick|thorough: exit 0 held, 1 violated, 2 no answer.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
prop=$1
tier=${2:-quick}
seed=${VERIF_SEED:-1}
scr=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 2
trap 'case "$scr" in /tmp/verif-sim.*) rm -rf -- "$scr" ;; esac' EXIT
mkdir -p "$here/evidence" "$here/replays"
race=
racearg=()
case "$prop" in C07 | C08 | C14 | C25)
	race=race
	racearg=(-racebin "$scr/simrun-race")
	;;
esac
"$here/bin/build.sh" "$scr" $race || { echo "check.sh: build failed" >&2; exit 2; }
grep "^known: property=$prop " "$here/known_findings.txt" | sed 's/^known:/KNOWN-FINDING:/'
"$scr/simrun" check -prop "$prop" -tier "$tier" -seed "$seed" -sites "$scr/ins/sites.json" -scratch "$scr" \
	-evidence "$here/evidence/$prop.json" -replays "$here/replays" "${racearg[@]}"
