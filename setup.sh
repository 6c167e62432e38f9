#!/bin/bash
# Build everything once from the committed files (the checks rebuild what changed).
set -e
cd "$(dirname "$0")/harness"
export CARGO_NET_OFFLINE=true
cargo build --release --offline -q
export MAC_GEN="$PWD/target/mac_gen_setup.rs"
./target/release/vmon gen-mac 1 1 >"$MAC_GEN"
(cd mac && CARGO_TARGET_DIR=../target cargo build --release --offline -q)
./target/release/vmon list >/dev/null
