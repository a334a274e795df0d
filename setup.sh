#!/bin/bash
# Builds every variant of the harness once, so that the build cache is warm.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$here/env.sh"
cd "$here/harness" || exit 1
out=$(mktemp -d /tmp/zpverif.XXXXXXXX) || exit 1
trap 'rm -rf "$out"' EXIT
go build -gcflags=github.com/danhhz/zeropb/...=-d=checkptr -o "$out/a" ./cmd/zpcheck || exit 1
CGO_ENABLED=1 go build -race -o "$out/b" ./cmd/zpcheck || exit 1
GOARCH=386 go build -o "$out/c" ./cmd/zpcheck || exit 1
go build -o "$out/d" ./cmd/zpcheck || exit 1
mkdir -p "$here/evidence" "$here/replays"
echo ready
