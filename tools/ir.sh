#!/bin/bash
# dev helper: build the IR of one property: ir.sh c01 [profile]
cd /verif/harness
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/ir-$1
cargo rustc --offline --lib --crate-type cdylib --profile ${2:-release} --features $1 -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C relocation-model=static -C linker=/bin/true 2>&1 | grep -v '^ *Compiling' 
ls -la $CARGO_TARGET_DIR/${2:-release}/deps/*.ll
