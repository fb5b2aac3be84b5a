#!/bin/bash
# Builds the program of C23 in every configuration, into /verif/target/cfgs/bin.
. /verif/env.sh
export CARGO_TARGET_DIR=/verif/target/cfgs RUSTFLAGS="--cfg dnssec_verif"
bin=$CARGO_TARGET_DIR/bin
mkdir -p "$bin"
log=$(mktemp)
trap 'rm -f "$log"' EXIT
# name, directory cargo builds in, cargo arguments
one() {
	local name=$1 dir=$2; shift 2
	if ! cargo build --offline --manifest-path /verif/cfgs/Cargo.toml "$@" >"$log" 2>&1; then
		grep -E "^error" -A12 "$log" | head -60 >&2; echo "INCONCLUSIVE: the configuration $name does not build" >&2; exit 2
	fi
	cmp -s "$CARGO_TARGET_DIR/$dir/cfgs" "$bin/$name" || { cp "$CARGO_TARGET_DIR/$dir/cfgs" "$bin/.$name.$$" && mv "$bin/.$name.$$" "$bin/$name"; } || exit 2
}
one builder-debug debug
one builder-std release --release --features std
one default-debug debug --features validation
one default-release release --release --features validation
one default-small small --profile small --features validation
one full-debug debug --features validation,server
one full-release release --release --features validation,server
