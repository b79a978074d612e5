export HOME=/root
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2023-04-15
B=/root/.rustup/toolchains/nightly-2023-02-01-x86_64-unknown-linux-gnu/bin
export RUSTC=$B/rustc RUSTDOC=$B/rustdoc
export RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=1 CARGO_TERM_COLOR=never
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
unset TDCCH_APPROX_THRESHOLD TDCCH_APPROX TRAFFIC_MAX_QUERY_TIME
