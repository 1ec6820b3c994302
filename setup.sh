#!/bin/bash
# Compiles everything once, so that a broken toolchain shows before the checks run.
cd "$(dirname "$0")/mc" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off CGO_ENABLED=0
export GOCACHE=/root/.cache/go-build
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$PWD/../build/gocache
mkdir -p ../build
d=$(mktemp -d "$PWD/../build/setup-XXXXXX") || exit 1
trap 'rm -rf "${d:?}"' EXIT
go version && go vet ./ref ./chk && go build -o /dev/null ./seq || exit 1
for mode in core full; do
	go run ./cmd/instr -repo /repo -out "$d/$mode" -overlay "$d/$mode.json" -mode $mode && go build -overlay "$d/$mode.json" -o /dev/null ./conc || exit 1
done
