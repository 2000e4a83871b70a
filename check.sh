#!/bin/bash
# check.sh <property> [args]: builds the property's check against /repo's
# current working tree (sources injected with go's -overlay, so nothing is
# written in /repo) and runs it.
set -u
P=$1; shift
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
mkdir -p "$V/out/$P" "$V/evidence"
python3 "$V/tools/overlay.py" "$V" "$P" || exit 2
cd /repo || exit 2
go build -overlay "$V/out/$P/overlay.json" -o "$V/out/$P/check" "./zzverif/$P" || { echo "ERROR: build failed"; exit 2; }
[ "${BUILD_ONLY:-}" = 1 ] && exit 0
exec "$V/out/$P/check" -verif "$V" "$@"
