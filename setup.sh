#!/bin/bash
# Builds the drivers once (checks build what they need themselves).
cd "$(dirname "$0")/drivers" || exit 1
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline -q -p drv-regex -p drv-core -p drv-lexers --target-dir target || exit 1
(cd ../gen && cargo check --offline -q --target-dir target) || true
verus --version >/dev/null || exit 1
exit 0
