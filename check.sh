#!/bin/bash
# check.sh <property id>: builds the harness against /repo's current tree and runs that property's check.
# VERIF_SEED, VERIF_TIER (quick|thorough); VERIF_REPLAY=<file> runs one saved case only.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VF_ROOT=$here
tmp=$(mktemp -d /tmp/vfdrv.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/harness" && go build -o "$tmp/drv" ./cmd/drv) || { echo "CHECK-ERROR the driver does not build"; exit 2; }
"$tmp/drv" "$1"
exit $?
