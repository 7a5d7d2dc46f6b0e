# offline Rust environment of this framework
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export PATH="${CARGO_HOME:-$HOME/.cargo}/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
export RUSTFLAGS="-Awarnings"
