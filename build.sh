#!/bin/bash
# build.sh [property]: builds the explorer(s) against /repo's working tree, offline.
# Without a property, everything; C19 and C29 have explorers of their own.
set -eu
cd "$(dirname "$0")"
. ./env.sh
mkdir -p target
exec 9>target/.verif-build-lock
flock 9
# Cargo decides by file times; a tree restored with old times must still be rebuilt, so hash the sources too.
H=$(cd /repo && find src Cargo.toml uniffi wasm/src wasm/Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.udl' \) -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
one() { # directory, packages that come from /repo
    if [ "$(cat "target/.repo-hash-$1" 2>/dev/null || true)" != "$H" ]; then
        cargo clean -q --release --offline $2 --manifest-path "$1/Cargo.toml" 2>/dev/null || true
        rm -f "target/.repo-hash-$1"
    fi
    cargo build -q --release --offline --locked --manifest-path "$1/Cargo.toml" || return 1
    echo "$H" > "target/.repo-hash-$1"
}
case "${1:-}" in
    C19) one ffi "-p didcomm -p didcomm-uniffi" ;;
    C29) one js "-p didcomm -p didcomm-js" ;;
    "") # a wrapper that does not build is its own check's business
        one harness "-p didcomm"
        one ffi "-p didcomm -p didcomm-uniffi" || echo "ffi explorer not built" >&2
        one js "-p didcomm -p didcomm-js" || echo "js explorer not built" >&2 ;;
    *) one harness "-p didcomm" ;;
esac
