#!/bin/bash
# Builds the model checker from the committed files against /repo's working tree (every check does so again).
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME="${HOME:-/root}"
mkdir -p "$here/.build" "$here/evidence"
cd "$here/mc" && go build -o "$here/.build/mc" .
