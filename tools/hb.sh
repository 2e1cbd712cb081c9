#!/bin/bash
# development: build the harness
set -o pipefail
D=${LRH:-/tmp/lrh-target}
cd "$(dirname "$0")/../harness" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo rustc --release --offline --target-dir $D --bin lrh -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^error" -A7
ls -t $D/release/deps/lrh-*.ll | head -1 | xargs -I{} ln -sf {} $D/h.ll
