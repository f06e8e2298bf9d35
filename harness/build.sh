#!/bin/bash
# builds the conformance driver against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-Awarnings"
unset CARGO_RESOLVER_LOCKFILE_PATH
export CARGO_TARGET_DIR="${CONFORM_TARGET:-$here/../build/target}"
mkdir -p "$CARGO_TARGET_DIR"; exec 9>"$CARGO_TARGET_DIR/.build-lock"; flock 9
cd "$here" && [ -n "$KEEP" ] || rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/calcu-rs-* "$CARGO_TARGET_DIR"/debug/.fingerprint/calcurs_macros-*
exec cargo build --offline -q "$@"
