#!/bin/bash
# builds the extractor; every check also builds it when it is missing
set -e
cd "$(dirname "$0")/../vx"
RUSTUP_TOOLCHAIN=1.75.0 cargo build --release --offline -q
verus --version >/dev/null
