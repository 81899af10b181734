#!/bin/bash
# builds the executor and warms the harness build (both are rebuilt by every check as needed)
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2024-09-05 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
(cd engine && cargo build --release --offline --locked)
(cd harness && cargo build --release --target wasm32-unknown-unknown --offline --locked --no-default-features)
mkdir -p evidence
