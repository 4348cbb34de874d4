#!/bin/bash
# Builds the explorers from the committed files; the checks rebuild what /repo's tree changed.
cd "$(dirname "${BASH_SOURCE[0]}")/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_TARGET RUSTC_WRAPPER
cargo build --offline --release --quiet
