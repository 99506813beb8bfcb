#!/bin/bash
# builds the framework once; every check also (re)builds what it needs itself
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/target
cargo build --release --offline --locked --manifest-path mc/Cargo.toml || exit 1
python3 mcd/gen.py target/mcd-decls-quick.rs quick || exit 1
MCD_DECLS=$PWD/target/mcd-decls-quick.rs cargo build --release --offline --locked --manifest-path mcd/Cargo.toml
