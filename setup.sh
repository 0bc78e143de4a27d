#!/bin/bash
# Builds what can be built ahead (dependencies of the companion harness and of the Kani crate). Checks rebuild on their own.
cd "$(dirname "$0")" || exit 1
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
mkdir -p .build evidence
(cd harness && cargo build --offline --locked --target-dir ../.build/h >/dev/null 2>&1)
if [ -d kani ]; then (cd kani && unset RUSTUP_TOOLCHAIN && cargo kani --target-dir ../.build/k -Z function-contracts --only-codegen >/dev/null 2>&1); fi
exit 0
