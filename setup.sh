#!/bin/bash
# builds the tools the checks need (everything offline, everything below /verif/build)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo build --release --offline --manifest-path tools/extract/Cargo.toml --target-dir build/extract
cargo build --release --offline --manifest-path harness/bb/Cargo.toml --target-dir build/bb
# warm the dependency builds
cargo build --offline --manifest-path /repo/Cargo.toml --target-dir build/bin
python3 -c "import sys; sys.path.insert(0,'lib'); import harness; harness.build_internal('C01')"
