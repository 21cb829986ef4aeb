#!/bin/bash
# Builds the framework once from the committed files (checks rebuild what they need themselves).
set -e
cd "$(dirname "$0")"
mkdir -p evidence
cd harness
export RUSTFLAGS="-Awarnings" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../target
cargo build --offline --quiet --features all >/dev/null
cargo build --offline --quiet --features trav --profile plain >/dev/null
