#!/bin/bash
# check.sh <property> [quick|thorough] [case-key]: builds the explorer from /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
ID=${1:?property}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
. ./env.sh
./build.sh "$ID" >&2 || { echo "build of the explorer against /repo failed" >&2; exit 2; }
BIN=target/release/dchk
[ "$ID" = C19 ] && BIN=target/release/dchk-uniffi
[ "$ID" = C29 ] && BIN=target/release/dchk-js
if [ $# -ge 3 ]; then exec "$BIN" "$ID" --only "$3"; fi
exec "$BIN" "$ID"
