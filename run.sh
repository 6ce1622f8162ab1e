#!/bin/bash
# ./run.sh [flags] PROPERTY   decide one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off VERIF_DIR="$PWD"
mkdir -p build || exit 2
go build -C harness -o "$PWD/build/vrun" ./cmd/vrun || exit 2
exec build/vrun "$@"
