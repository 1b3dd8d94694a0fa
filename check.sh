#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]   -- decides one property by seeded simulation.
# Builds the simulator together with /repo's current tree, then searches.
# Exit 0: held. Exit 1: VIOLATION line printed. Anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --offline --quiet >"$log" 2>&1; then
    grep -v '^warning' "$log" | tail -n 40
    rm -f "$log"
    echo "ERROR: the simulator does not build with this tree"
    exit 3
fi
rm -f "$log"
mkdir -p "$here/evidence" "$here/replays"
exec ./target/debug/qsim check "$prop" --tier "$tier" --seed "$seed" \
    --out "$here/replays" --evidence "$here/evidence/$prop.json" --known "$here/known_findings.txt"
