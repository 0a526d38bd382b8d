#!/bin/bash
# Run in /repo after the build: exit 0 if the bouncer behaves, non-zero otherwise.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
cat > "$tmp/overlay.json" <<J
{"Replace": {"$PWD/zz_demo_test.go": "$dir/demo_test.go", "$PWD/zz_demolib_test.go": "$dir/lib_test.go"}}
J
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' .
