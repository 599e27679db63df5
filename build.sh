#!/bin/bash
# Build the harness against /repo's working tree. Output: $VERIF_TARGET (default /verif/target).
set -e
export PATH="/root/.cargo/bin:$PATH" HOME=/root LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="${VERIF_TARGET:-$here/target}"
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Crelocation-model=static -Clink-arg=-no-pie --cap-lints=allow"
cd "$here/harness"
exec cargo build --release --offline --target x86_64-unknown-linux-gnu "$@"
