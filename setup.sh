#!/bin/bash
# builds the harness and the route service (and, through them, the library) from the working tree of /repo
set -e
cd "$(dirname "$0")"
. ./env.sh
cargo build --offline --locked --manifest-path harness/Cargo.toml
cargo build --offline --locked --manifest-path /repo/Cargo.toml -p server
