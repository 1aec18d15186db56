#!/bin/sh
# Nothing is to be built beforehand: every check builds from /repo's current tree. This verifies that tools are there.
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true PATH="/root/.cargo/bin:$PATH"
cargo --version
python3 --version
test -f /repo/fieldx/Cargo.toml
