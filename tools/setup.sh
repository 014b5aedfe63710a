#!/bin/bash
# builds the extractor and the harness (the checks rebuild the harness from /repo's current tree themselves)
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path vx/Cargo.toml
cargo build --offline --quiet --release --manifest-path harness/Cargo.toml
verus --version >/dev/null
