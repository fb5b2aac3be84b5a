#!/bin/bash
# check.sh ID quick|thorough [further arguments of the runner]: builds what the check needs from /repo's working tree and runs it.
# Exit 0: held; 1 with a VIOLATION line: violated; anything else: no answer.
. /verif/env.sh
id=$1; tier=${2:-quick}; shift 2
export CARGO_TARGET_DIR=/verif/target
log=$(mktemp)
build_at() { # manifest, rustflags, further cargo arguments
	local manifest=$1 flags=$2; shift 2
	if ! RUSTFLAGS="$flags" cargo build --offline --manifest-path "$manifest" "$@" >"$log" 2>&1; then
		grep -E "^error" -A12 "$log" | head -60 >&2; rm -f "$log"; echo "INCONCLUSIVE: $manifest does not build" >&2; exit 2
	fi
	rm -f "$log"
}
build() { local c=$1; shift; build_at /verif/$c/Cargo.toml "$@"; }
HOOKS="--cfg dnssec_verif"
case $id in
	C20)
		CARGO_TARGET_DIR=/verif/target/prod build prod ""
		CARGO_TARGET_DIR=/verif/target/prodfull build prod "" --release --features full
		build harness "$HOOKS"; exec /verif/target/debug/vh C20 --tier "$tier" "$@" ;;
	C13|C19|C22) build wasmcheck "$HOOKS"; exec /verif/target/debug/wasmcheck "$id" --tier "$tier" "$@" ;;
	C18)
		export VH_SERVER=/verif/target/srv/debug/http_proof_gen
		CARGO_TARGET_DIR=/verif/target/srv build_at /repo/Cargo.toml "" --features build_server --bin http_proof_gen
		build harness "$HOOKS"; exec /verif/target/debug/vh C18 --tier "$tier" "$@" ;;
	C23)
		bash /verif/cfgs.sh || exit 2
		export VH_SERVER=/verif/target/srv/release/http_proof_gen
		CARGO_TARGET_DIR=/verif/target/srv build_at /repo/Cargo.toml "" --release --features build_server --bin http_proof_gen
		build harness "$HOOKS" --profile rel; exec /verif/target/rel/vh C23 --tier "$tier" "$@" ;;
	C09)
		build harness "$HOOKS"; args=("$@")
		[ "$tier" = thorough ] && [ $# = 0 ] && args=(--cap 260)
		/verif/target/debug/vh C09 --tier "$tier" "${args[@]}"; rc=$?
		if [ $rc != 0 ] || [ $# != 0 ]; then exit $rc; fi
		exec bash /verif/c09.sh "$tier" ;;
	*) build harness "$HOOKS"; exec /verif/target/debug/vh "$id" --tier "$tier" "$@" ;;
esac
