#!/bin/bash
# Builds simctl from this tree into a scratch directory and runs it.
here=$(cd "$(dirname "$0")/.." && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR=$here GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
tmp=$(mktemp -d "${TMPDIR:-/tmp}/simctl.XXXXXX") || exit 3
trap 'rm -rf -- "$tmp"' EXIT
(cd "$here/sim" && go build -o "$tmp/simctl" ./cmd/simctl) >&2 || exit 3
"$tmp/simctl" "$@"
exit $?
