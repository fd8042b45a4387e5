#!/bin/bash
# replay.sh FILE   runs one recorded plan again: exit 1 and the same violation, or 0 if it is gone
cd "$(dirname "${BASH_SOURCE[0]}")" && . ./env.sh
F=$(realpath "$1")
case "$(head -1 "$F")" in vsim*) half=sim ;; *) half=gen ;; esac
bash build.sh $half || exit 2
base=/dev/shm; { [ -d $base ] && [ -w $base ]; } || base="$VERIF/work"
mkdir -p "$VERIF/work"; S=$(mktemp -d "$base/vsim.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
if [ $half = sim ]; then target/sim/release/vsim replay "$F"
else target/gen/debug/simfs replay "$F" --gen "$VERIF/target/gen/debug/gen_under_test" --shim "$VERIF/target/gen/simfs.so" --scratch "$S"; fi
