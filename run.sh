#!/bin/bash
# Builds the simulator driver and passes the arguments on:
#   run.sh setup | run.sh check ID [flags] | run.sh replay FILE | run.sh determinism ID...
cd "$(dirname "$0")" || exit 3
here=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOCACHE=$here/.build/gocache
unset GOWORK GOOS GOARCH GODEBUG GOEXPERIMENT GOMAXPROCS GOGC GOMEMLIMIT
mkdir -p "$here/.build" || exit 3
(cd sim && go build -o "$here/.build/vsim" ./cmd/vsim) || exit 3
if [ "$1" = setup ]; then
	exec "$here/.build/vsim" build -verif "$here"
fi
cmd=$1; shift
args=()
while [ $# -gt 0 ] && [ "${1#-}" = "$1" ]; do args+=("$1"); shift; done
exec "$here/.build/vsim" "$cmd" "${args[@]}" -verif "$here" "$@"
