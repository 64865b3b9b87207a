#!/bin/bash
# usage: run.sh PROPERTY...   builds the checker (offline) and runs it against /repo
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH" LANG=C.UTF-8 LC_ALL=C.UTF-8
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod CGO_ENABLED=0
mkdir -p "$here/bin" "$here/evidence"
bin="$here/bin/uaxcheck"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" \( -name '*.go' -o -name '*.json' \) -print -quit)" ]; then
  ( cd "$here/checker" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin" ) || { echo "cannot build the checker"; exit 2; }
fi
[ "$1" = build ] && exit 0
unset GOFLAGS
export VP_VERIF="$here"
exec "$bin" "$@"
