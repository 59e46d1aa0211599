#!/bin/bash
# build_ir.sh: LLVM IR of the harness crate (with /repo's crate and std inlined by LTO) from the current tree
cd "$(dirname "$0")/harness" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1
export RUSTFLAGS="-Zinline-mir=no -Cllvm-args=-inline-threshold=-100000 -Cllvm-args=-inlinehint-threshold=-100000"
T="${1:-$PWD/../.build/ir}"
cargo rustc --offline --release --lib --crate-type cdylib --target-dir "$T" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
