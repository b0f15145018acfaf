#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's working tree.
set -u
V=$(cd "$(dirname "$0")" && pwd)
what=sim
args=()
case $(basename "$1") in
C06* | C07*) what="sim race"; args+=(-race "$V/.build/jdsim-race") ;;
C12* | C15*) what="sim cli" ;;
esac
"$V/build.sh" $what >"$V/.build.log" 2>&1 || { tail -50 "$V/.build.log" >&2; echo "harness: build failed" >&2; exit 2; }
exec "$V/.build/jdsim" replay -verif "$V" "${args[@]}" "$1"
