#!/bin/bash
# run.sh PROPERTY [-replay FILE] [-seconds N]: builds the check from /repo's working tree and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off CGO_ENABLED=0
export GOCACHE=/root/.cache/go-build
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$here/build/gocache
mkdir -p "$here/build"
bin=$(mktemp -d "$here/build/bin-$prop-XXXXXX") || exit 2
trap 'rm -rf "${bin:?}"' EXIT
cd "$here/mc" || exit 2
note=
case $prop in
C01|C02|C03|C04|C05|C06|C07|C19|C20|C21|C22|C26|C28|C32)
	go build -o "$bin/check" ./seq || { echo "build failed" >&2; exit 2; } ;;
*)
	mode=core
	[ $prop = C23 ] && mode=full
	instr() {
		go run ./cmd/instr -repo /repo -out "$bin/src" -overlay "$bin/overlay.json" -mode $mode "$@" &&
			go build -overlay "$bin/overlay.json" -o "$bin/check" ./conc
	}
	# should an access not be instrumentable, explore without recording accesses
	instr || { note="built without access recording: no race detection"; instr -norace; } || { echo "build failed" >&2; exit 2; } ;;
esac
"$bin/check" -prop "$prop" -root "$here" -note "$note" "$@"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || rc=2
exit $rc
