#!/bin/sh
# run.sh ID            decide one property (VERIF_TIER=quick|thorough)
# run.sh --replay ID F re-judge one recorded state
# Builds the explorer against /repo's working tree every time.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
cd "$ROOT" || exit 3
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off VMC_ROOT="$ROOT"
BIN=$(mktemp -d "${TMPDIR:-/tmp}/vmcbin-XXXXXX") || exit 3
trap 'rm -rf "$BIN"' EXIT INT TERM
export VMC_BIN="$BIN"
if ! go build -o "$BIN/mc" ./cmd/mc 2>"$BIN/build.log"; then
  echo "build failed:"; cat "$BIN/build.log"
  exit 3
fi
if [ "${1:-}" = "--replay" ]; then
  VMC_ONE="$3" "$BIN/mc" child "$2"
  exit $?
fi
"$BIN/mc" "$1"
