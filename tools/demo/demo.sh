#!/bin/bash
# builds demo.rs against the library in the current directory (/repo) in a scratch folder and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-04-15
B=/root/.rustup/toolchains/nightly-2023-02-01-x86_64-unknown-linux-gnu/bin
export RUSTC=$B/rustc RUSTDOC=$B/rustdoc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset TDCCH_APPROX_THRESHOLD TDCCH_APPROX TRAFFIC_MAX_QUERY_TIME
S=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src"
cp "$HERE"/*.rs "$S/src/"; mv "$S/src/demo.rs" "$S/src/main.rs"
cp "$REPO/Cargo.lock" "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_road_router = { path = "$REPO/engine" }
rayon = "1.5.1"
[profile.dev]
opt-level = 1
debug = 0
T
cd "$S"
export CARGO_TARGET_DIR="$S/target"
if ! cargo build --offline > build.log 2>&1; then tail -30 build.log; echo "demo: build failed"; exit 7; fi
timeout 120 "$S/target/debug/demo" > run.log 2>&1
rc=$?
tail -5 run.log
exit $rc
