#!/bin/bash
# bash run.sh ID quick|thorough   decide a property
# bash run.sh replay FILE         repeat a reported case
# bash run.sh setup               build everything once, to fill the build cache
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
(cd harness && go build -buildvcs=false -o "$T/check" ./cmd/check) || { echo "ERROR cannot build the check"; exit 2; }
"$T/check" "$@"
