#!/bin/bash
# Builds demo.rs (beside this file) against the crate in the current directory and runs it:
# exit 0 when the property it demonstrates holds, non-zero when it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
rlibphonenumber = { path = "$repo" }
protobuf = "3.7"
log = "0.4"
[profile.dev]
debug = false
EOF
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$t/target}"
cargo build --offline --quiet --manifest-path "$t/Cargo.toml" || { echo "demo: build failed"; exit 3; }
timeout -k 5 "${DEMO_SECONDS:-120}" "$CARGO_TARGET_DIR/debug/demo"
rc=$?
echo "demo: exit $rc"
exit $rc
