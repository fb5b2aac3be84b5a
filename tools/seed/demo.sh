#!/bin/bash
# Builds the program beside this file against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/demolib.rs" "$t/src/demolib.rs"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dnssec-prover = { path = "$repo", features = ["std", "tokio", "validation"] }
ring = { version = "0.17", default-features = false, features = ["alloc"] }
tokio = { version = "1", default-features = false, features = ["rt", "net", "io-util", "time"] }
[profile.dev]
debug = false
incremental = false
END
cp "$here/Cargo.lock.demo" "$t/Cargo.lock"
cd "$t"
RUSTFLAGS="--cfg dnssec_verif" CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 3
timeout 100 "$t/target/debug/demo"
