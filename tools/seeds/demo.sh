#!/bin/bash
# run in the repository's root: exits 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/o.json" <<J
{"Replace": {"$repo/zzdemo/demo_test.go": "$here/demo_test.go", "$repo/zzdemo/util_test.go": "$here/util_test.go"}}
J
race=@RACE@
go test -overlay "$tmp/o.json" -vet=off -c $race -o "$tmp/demo.test" ./zzdemo || exit 2
cd "$tmp" && timeout 150 ./demo.test -test.timeout 140s > "$tmp/log" 2>&1
rc=$?
tail -c 1500 "$tmp/log"
exit $rc
