#!/bin/bash
# cargo with the settings of the library's own build, in the harness folder.
export PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS
cd "$(dirname "$0")/../harness" || exit 2
exec cargo "$@"
