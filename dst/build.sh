#!/bin/bash
# Builds the simulator from the working tree of /repo (REPO overrides) into
# /verif/.build (OUT overrides).
set -e
D=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=${OUT:-$(dirname "$D")/.build}
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-buildvcs=false
mkdir -p "$OUT/bin"
cd "$D"
export GOWORK=off
GOFLAGS="-buildvcs=false -mod=mod" go run ./tools/mkoverlay "$OUT/std"
GOFLAGS="-buildvcs=false -mod=mod" go run ./tools/instrument "$REPO" "$OUT" 8 "$D/baseline.txt"
export GOWORK="$OUT/go.work"
go build -overlay "$OUT/std/overlay.json" -o "$OUT/bin/sim" ./cmd/sim
[ -d "$D/cmd/dst" ] && GOWORK=off GOFLAGS="-buildvcs=false -mod=mod" go build -o "$OUT/bin/dst" ./cmd/dst
exit 0
