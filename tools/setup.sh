#!/bin/bash
# Builds all checks once.
cd "$(dirname "$0")/../mc" || exit 1
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS
cargo build --offline --locked -q -p checks --bins 2>&1 | grep -A8 '^error'
exit "${PIPESTATUS[0]}"
