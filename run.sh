#!/bin/bash
# Builds the simulator against /repo's current working tree and runs one command of it:
#   run.sh build | check <property> <quick|thorough> | replay <file> | selftest <property> <runs>
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export SIM_ROOT="$PWD"
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$PWD/sim/wrap.sh" CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$PWD/target" "$PWD/evidence" "$PWD/out"
if ! cargo build --offline --manifest-path sim/Cargo.toml >"$PWD/out/build.log" 2>&1; then
  cat "$PWD/out/build.log" >&2
  echo "build failed" >&2
  exit 2
fi
[ "$1" = build ] && { echo built; exit 0; }
exec "$PWD/target/debug/sim" "$@"
