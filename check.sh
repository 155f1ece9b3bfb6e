#!/bin/bash
# check.sh <property> <quick|thorough> [engine flags]: builds the engine (offline) and decides one property on /repo's working tree.
set -u
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"; shift; shift || true
mkdir -p "$here/.build"
bin="$here/.build/engine.$$"
trap 'rm -f "$bin"' EXIT
if ! (cd "$here/engine" && go build -o "$bin" .) ; then
  echo "CHECK-ERROR property=$prop engine build failed"; exit 2
fi
"$bin" check -verif "$here" -repo "${VZ_REPO:-/repo}" -property "$prop" -tier "$tier" "$@"
