#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE]
# Builds the harness from /repo's working tree and runs the monitors of one
# property. Exit 0: held; 1: VIOLATION; 2: no answer.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$here/env.sh"
prop=$1
mode=${2:-${VERIF_TIER:-quick}}
export ZP_VERIF=$here
ZP_SCRATCH=$(mktemp -d /tmp/zpverif.XXXXXXXX) || exit 2
export ZP_SCRATCH
trap 'rm -rf "$ZP_SCRATCH"' EXIT
cd "$here/harness" || exit 2
if ! go build -gcflags=github.com/danhhz/zeropb/...=-d=checkptr -o "$ZP_SCRATCH/zpcheck" ./cmd/zpcheck; then
  echo "cannot build the harness against /repo" >&2
  exit 2
fi
cd "$here" || exit 2
if [ "$mode" = replay ]; then
  "$ZP_SCRATCH/zpcheck" -replay "$3"
else
  "$ZP_SCRATCH/zpcheck" -prop "$prop" -tier "$mode" -seed "${VERIF_SEED:-1}"
fi
