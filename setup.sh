#!/bin/bash
# setup.sh: warms the offline Go build cache for the engine and for native replay.
set -eu
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/.build" "$here/evidence"
cd "$here/engine" && go vet . && go build -o "$here/.build/engine" .
for s in z3-new cvc5; do command -v $s >/dev/null; done
echo ok
