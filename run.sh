#!/bin/bash
# run.sh ID [quick|thorough]: builds the harness and decides one property on /repo's working tree.
# run.sh replay FILE: runs one replay file again.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export VERIF_DIR="$here"
bin=$(mktemp -d "${TMPDIR:-/tmp}/claraharness.XXXXXX") || exit 3
trap 'rm -rf "$bin"' EXIT
(cd "$here/harness" && go build -o "$bin/harness" .) || { echo "harness error: build failed"; exit 3; }
if [ "$1" = setup ]; then exit 0; fi
if [ "$1" = replay ]; then
  "$bin/harness" replay "$2"
else
  [ -n "$2" ] && export VERIF_TIER="$2"
  "$bin/harness" check "$1"
fi
