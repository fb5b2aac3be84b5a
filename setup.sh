#!/bin/bash
# Builds everything the checks use, once.
. /verif/env.sh
export CARGO_TARGET_DIR=/verif/target
RUSTFLAGS="--cfg dnssec_verif" cargo build --offline --manifest-path /verif/harness/Cargo.toml || exit 1
CARGO_TARGET_DIR=/verif/target/srv RUSTFLAGS= cargo build --offline --manifest-path /repo/Cargo.toml --features build_server --bin http_proof_gen || exit 1
RUSTFLAGS="--cfg dnssec_verif" cargo build --offline --manifest-path /verif/wasmcheck/Cargo.toml || exit 1
CARGO_TARGET_DIR=/verif/target/prod RUSTFLAGS= cargo build --offline --manifest-path /verif/prod/Cargo.toml || exit 1
CARGO_TARGET_DIR=/verif/target/prodfull RUSTFLAGS= cargo build --offline --manifest-path /verif/prod/Cargo.toml --release --features full || exit 1
RUSTFLAGS="--cfg dnssec_verif" cargo build --offline --manifest-path /verif/harness/Cargo.toml --profile rel || exit 1
bash /verif/cfgs.sh || exit 1
CARGO_TARGET_DIR=/verif/target/srv RUSTFLAGS= cargo build --offline --manifest-path /repo/Cargo.toml --release --features build_server --bin http_proof_gen || exit 1
