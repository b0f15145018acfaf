#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working
# tree and decides one property. Exit 0 held, 1 violated (VIOLATION line), 2 the
# check itself failed.
set -u
V=$(cd "$(dirname "$0")" && pwd)
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
what=sim
args=()
case $P in
C06 | C07) what="sim race"; args+=(-race "$V/.build/jdsim-race") ;;
C12 | C15) what="sim cli" ;;
esac
"$V/build.sh" $what >"$V/.build.log" 2>&1 || { tail -50 "$V/.build.log" >&2; echo "harness: build failed" >&2; exit 2; }
exec "$V/.build/jdsim" check -prop "$P" -tier "$TIER" -seed "$SEED" -verif "$V" "${args[@]}"
