#!/bin/bash
# check.sh ID quick|thorough: builds the model checker against /repo's working tree and runs a check.
# Exit 0: the property held on everything explored. Exit 1: VIOLATION line printed.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
export HOME="${HOME:-/root}" MC_VERIF="$here"
mkdir -p "$here/.build" "$here/evidence"
export MC_BUILD="$here/.build"
out="$here/.build/mc"
cd "$here/mc" || exit 2
if ! go build -o "$out" . 2>"$here/.build/build.log"; then
  cat "$here/.build/build.log"
  echo "the model checker does not build against /repo"
  exit 2
fi
# the program
case "$1" in
P05 | P06 | P10 | P11 | P12 | P13 | P14 | P15 | P16 | P20 | P21 | P24)
  if ! go build -o "$here/.build/midiasm" github.com/transcriptaze/midiasm/cmd/midiasm 2>"$here/.build/build.log"; then
    cat "$here/.build/build.log"
    echo "the program does not build"
    exit 2
  fi
  ;;
esac
# the happens-before monitor of the concurrency checks
case "$1" in
P19 | P23) go build -race -o "$here/.build/mc-race" . 2>>"$here/.build/build.log" || rm -f "$here/.build/mc-race" ;;
esac
exec "$out" check "$1" "${2:-quick}"
