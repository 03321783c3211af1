#!/bin/bash
# Builds the harness once; every check builds it again from /repo's tree (incrementally).
set -e
cd "$(dirname "$0")/../harness"
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline -q
