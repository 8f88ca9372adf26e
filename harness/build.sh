#!/bin/bash
# Compile the harness (and /repo, its dependencies and std) so that MIR of everything is available.
set -e
cd "$(dirname "$0")"
T=${MIRSYM_TARGET:-/verif/.work/target}
mkdir -p "$T"
export MIRSYM_ARGS="$T/harness.args"
export RUSTC_WORKSPACE_WRAPPER="$PWD/wrap.sh"
export RUSTFLAGS="--cfg miri --cfg mirsym -Zalways-encode-mir -Zinline-mir=no -Zmir-opt-level=2 -Awarnings"
export CARGO_TARGET_DIR="$T"
cargo +nightly build --offline -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu "$@"
