#!/bin/bash
# ir.sh CRATE: post-LTO textual IR of one harness crate, for development
set -e
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd /verif/harness/$1
cargo rustc --release --offline --target-dir /verif/build/t-$1 --lib -- -C save-temps --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^(error|warning: unused)|-->" -A6 | head -80 || true
ls -la /verif/build/t-$1/release/deps/h$1.ll
