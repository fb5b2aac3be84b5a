. /verif/env.sh
export CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg dnssec_verif"
cargo build --offline --manifest-path /verif/harness/Cargo.toml "$@" 2>&1 | grep -vE "unexpected .cfg" | grep -E "^(error|warning: unused)" -A9
