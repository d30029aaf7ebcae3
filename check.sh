#!/bin/bash
# check.sh ID [tier]: rebuild the simulator against /repo's working tree and search property ID.
# Exit 0: held on everything explored; 1: VIOLATION; 2: no answer (the tree does not build).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
# The crates that build offline are simulated in sim/; those that need stand-ins for what cannot be
# fetched, in slam/.
case $id in
C0? | C1[0-3]) dir=sim bin=cvsim ;;
C1[4-6]) dir=slam bin=slamsim ;;
*) dir=slam bin=mapsim ;;
esac
cd "$here/$dir" || exit 2
log=$(mktemp)
if ! cargo build --release --offline --quiet -p "$bin" >"$log" 2>&1; then
    tail -40 "$log"
    /bin/rm -f "$log"
    echo "build failed: no answer"
    exit 2
fi
/bin/rm -f "$log"
VERIF_DIR="$here" exec "./target/release/$bin" check "$id" --tier "$tier"
