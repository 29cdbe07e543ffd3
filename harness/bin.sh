#!/bin/bash
# Builds the command from /repo's current tree into /verif/.build (git-ignored).
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/../.build/cli"
cargo build --offline --locked -q --manifest-path /repo/Cargo.toml --all-features --bin asciidocr
