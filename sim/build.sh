#!/bin/bash
# Builds the simulator from /repo's current working tree.
cd "$(dirname "$0")" || exit 3
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$PWD/wrap.sh" RUSTFLAGS="--cap-lints=warn -Awarnings"
export CARGO_TARGET_DIR="$PWD/target"
cargo build --offline -q "$@"
