#!/bin/bash
# setup.sh: proves that the simulator builds offline (and warms the build cache).
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
scr=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 2
trap 'case "$scr" in /tmp/verif-sim.*) rm -rf -- "$scr" ;; esac' EXIT
"$here/bin/build.sh" "$scr" race
