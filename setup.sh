#!/bin/bash
# Builds the framework once, offline.  Every check rebuilds what it needs again if this output is gone.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$PWD/.build/vx" cargo build --offline -q --manifest-path vx/Cargo.toml || exit 1
CARGO_TARGET_DIR="$PWD/.build/native" cargo build --offline -q --manifest-path native/Cargo.toml || exit 1
python3 -c "import sys; sys.path.insert(0,'lib'); import registry" || exit 1
echo setup done
