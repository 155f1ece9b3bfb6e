#!/bin/bash
# replay.sh FILE: replays a reported counterexample natively against /repo's working tree (exit 1: still fails).
set -u
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/.build"
bin="$here/.build/engine.$$"
trap 'rm -f "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin" .) || exit 2
"$bin" replay -verif "$here" -repo "${VZ_REPO:-/repo}" -file "$1"
