#!/bin/bash
# run one recorded case again on /repo's current tree: replay/run.sh FILE
cd "$(dirname "$0")/.."
cargo build --offline -q --manifest-path replay/Cargo.toml --target-dir build/replay && build/replay/debug/replay --file "$1"
