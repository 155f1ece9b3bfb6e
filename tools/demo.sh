#!/bin/bash
# Runs demo_test.go (beside this file) inside the package in the current directory, through a build overlay.
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=UTC
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
printf '{"Replace":{"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' .
