#!/bin/bash
# replay.sh FILE [--verbose 1]: re-executes one recorded run exactly, against /repo's current tree.
ROOT=$(cd "$(dirname "$0")" && pwd); V=$(awk '$1=="variant"{print $2;exit}' "$1"); bash "$ROOT/sim/build.sh" "$V" && exec "$ROOT/build/sim-$V" replay "$1" --findings "$ROOT/known-findings.txt" --trace 1 "${@:2}"
