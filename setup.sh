#!/bin/bash
# builds the extractor and the search crate (offline)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo build --offline -q --manifest-path vx/Cargo.toml --target-dir build/vx
cargo build --offline -q --manifest-path replay/Cargo.toml --target-dir build/replay
verus --version >/dev/null
