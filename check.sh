#!/bin/bash
# check.sh PROPERTY: builds the simulator around /repo's current tree and runs the seeded search for one property.
# VERIF_SEED (default 1) and VERIF_TIER (quick|thorough) come from the environment. Exit 0 held, 1 violation, 2 error.
ROOT=$(cd "$(dirname "$0")" && pwd); P=$1; T=${VERIF_TIER:-quick}; S=${VERIF_SEED:-1}; shift
case $P in C04) V=mem;; C12) V=asan;; C*) V=fast;; *) echo "usage: check.sh PROPERTY" >&2; exit 2;; esac
mkdir -p "$ROOT/build/replays" "$ROOT/evidence"
if ! bash "$ROOT/sim/build.sh" $V; then echo "ERROR: build failed" >&2; exit 2; fi
exec "$ROOT/build/sim-$V" check --prop "$P" --tier "$T" --seed "$S" --out "$ROOT/build/replays" --findings "$ROOT/known-findings.txt" --evidence "$ROOT/evidence/$P.json" "$@"
