#!/bin/bash
# Builds the symbolic executor and warms the dependency builds. Offline.
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
(cd symx && cargo build --release --offline -q) || exit 1
python3 check.py P01 quick
