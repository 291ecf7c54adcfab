#!/bin/bash
# Builds the verifier and warms the build cache.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/gover" && go build -o "$here/bin/gover" .) || exit 1
(cd /repo && GOFLAGS=-mod=readonly go build ./... ) || true
exit 0
