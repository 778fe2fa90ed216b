#!/bin/bash
# Builds the simulator against /repo's current working tree.  Output: /verif/sim/target
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS="" RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
unset RUSTC_WORKSPACE_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
exec cargo build --offline --locked --quiet
