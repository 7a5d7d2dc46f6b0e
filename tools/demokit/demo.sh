#!/bin/bash
# Builds the crate in /repo as it is (against a stand-in for askar-crypto) with main.rs and runs it, all
# in a scratch directory. Exit 0: the property holds in the demonstrated situation.
set -u
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'case "$T" in /tmp/demo.????????) rm -rf "$T";; esac' EXIT
cp -r "$here/kit/." "$T/"
cp "$here/main.rs" "$T/src/main.rs"
cd "$T" || exit 2
export PATH="${CARGO_HOME:-$HOME/.cargo}/bin:$PATH" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings
cargo build -q --offline --locked || exit 2
timeout 120 ./target/debug/demo
