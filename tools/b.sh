#!/bin/bash
cd /verif/symex && RUSTUP_TOOLCHAIN=stable cargo build --release --offline --target-dir /tmp/p/symex 2>&1 | grep -E "^error" -A12 | head -60
