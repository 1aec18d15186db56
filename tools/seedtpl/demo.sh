#!/bin/sh
# Run with cwd /repo: builds demo.rs against the tree and runs it; 0 when the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/fxdemo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable __FIELDX_DEFAULT_TOOLCHAIN__=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= PATH="/root/.cargo/bin:$PATH" CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$here/demo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
fieldx = { path = "$repo/fieldx", features = ["sync", "async", "serde"] }
fieldx_aux = { path = "$repo/fieldx_aux", features = ["serde"] }
parking_lot = "0.12"
tokio = { version = "1", features = ["sync"] }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
syn = { version = "2", features = ["full", "extra-traits"] }
quote = "1"
proc-macro2 = "1"
darling = "0.20"
[profile.dev]
debug = false
incremental = false
T
cd "$tmp" && cargo build --offline -q 2>"$tmp/log" || { tail -40 "$tmp/log"; exit 1; }
exec_ok=0
timeout 60 "$tmp/target/debug/demo" || exec_ok=$?
exit $exec_ok
