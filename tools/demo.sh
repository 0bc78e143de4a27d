#!/bin/bash
# run with cwd = repository root; exit 0 when the behaviour is right
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p "$T/src"; cp "$H/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
imageproc = { path = "$R", default-features = false, features = ["rayon"] }
image = { version = "0.25.0", default-features = false }
[workspace]
X
cd "$T" && exec_out=$(timeout 280 cargo run -q --offline --target-dir "$T/target" 2>&1); rc=$?
echo "$exec_out" | tail -5; exit $rc
