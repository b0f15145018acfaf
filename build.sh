#!/bin/bash
# Builds the simulator from /repo's current working tree into /verif/.build
# (ignored by git). Usage: build.sh [sim] [race] [cli]
set -eu
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
B=${BUILD_DIR:-$V/.build}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=1
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
(cd "$V/dst" && GOFLAGS= go build -o "$B/mkoverlay" ./mkoverlay)
"$B/mkoverlay" -repo "$REPO" -src "$V/dst/overlay" -out "$B/ov"
# module file of the simulator: the repository's requirements, the repository
# itself, and otto with its step hook
{
	echo "module verif/dst"
	echo "go 1.27"
	echo "require github.com/andygello555/json-dom v0.0.0"
	sed -n '/^require/,/^)/p' "$REPO/go.mod"
	echo "replace github.com/andygello555/json-dom => $REPO"
	echo "replace github.com/robertkrimen/otto => $B/ov/otto"
	grep '^replace' "$REPO/go.mod" || true
} >"$B/sim.mod"
cp "$REPO/go.sum" "$B/sim.sum"
for w in "$@"; do
	case $w in
	sim) (cd "$V/dst" && go build -modfile "$B/sim.mod" -overlay "$B/ov/overlay.json" -o "$B/jdsim" ./jdsim) ;;
	race) (cd "$V/dst" && go build -race -modfile "$B/sim.mod" -overlay "$B/ov/overlay.json" -o "$B/jdsim-race" ./jdsim) ;;
	cli)
		{
			cat "$REPO/go.mod"
			echo "replace github.com/robertkrimen/otto => $B/ov/otto"
		} >"$B/cli.mod"
		cp "$REPO/go.sum" "$B/cli.sum"
		(cd "$REPO" && go build -modfile "$B/cli.mod" -overlay "$B/ov/overlay.json" -o "$B/jdcli" .) ;;
	*) echo "build.sh: unknown target $w" >&2; exit 2 ;;
	esac
done
