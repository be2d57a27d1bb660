#!/bin/bash
# ./mt.sh P31 [check]
cd /verif/matching; export RUSTUP_TOOLCHAIN=1.89.0 CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=/verif/target/matching
cargo build --offline 2>&1 | grep -E "^error|^warning: unused|-->" -A7 | head -${N:-60}
[ -n "$2" ] && export VERIF_ONLY="$2"
VERIF_ROOT=/verif /verif/target/matching/debug/pxcheck $1 2>&1 | cut -c1-${W:-400} | tail -${L:-40}
