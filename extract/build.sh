#!/bin/bash
# Builds the extractor offline into /verif/.build (git-ignored).
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/../.build/extract"
cd "$here" && cargo build --release --offline -q
