#!/bin/bash
# c09.sh TIER: the further runs of C09. The main run is over and held; its evidence is completed here.
. /verif/env.sh
tier=$1
tmp=$(mktemp -d /tmp/c09-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
skip() { echo "SKIPPED: $*" | tee -a "$tmp/skipped" >&2; }
inconclusive() { echo "INCONCLUSIVE: $*" >&2; exit 2; }
# name, runner, seconds
further() {
	local rc
	"$2" C09 --tier "$tier" --cap "$3" --suffix ".$1" >"$tmp/out" 2>"$tmp/err"; rc=$?
	mv "/verif/evidence/C09.$1.json" "$tmp/" 2>/dev/null
	echo "--- $1"; grep -E "^(VIOLATION|C09:)" "$tmp/out"
	if [ $rc = 1 ] && grep -q "^VIOLATION" "$tmp/out"; then grep -vE "^VIOLATION" "$tmp/out" | head -5; grep -A25 "ERROR: AddressSanitizer" "$tmp/err"; sed -i 's/"violations": 0/"violations": 1/' /verif/evidence/C09.json; exit 1; fi
	# where every kind of observation is required, a short run may lack one: it still held on what it saw
	[ $rc = 0 ] || [ $rc = 4 ] || { tail -5 "$tmp/err" >&2; inconclusive "the $1 run ended with $rc"; }
}
export CARGO_TARGET_DIR=/verif/target
RUSTFLAGS="--cfg dnssec_verif" cargo build --offline --manifest-path /verif/harness/Cargo.toml --profile rel >"$tmp/log" 2>&1 || { tail -20 "$tmp/log" >&2; inconclusive "the optimised runner does not build"; }
if [ "$tier" = thorough ]; then further optimised /verif/target/rel/vh 90; else further optimised /verif/target/rel/vh 30; fi
if [ "$tier" = thorough ]; then
	CARGO_TARGET_DIR=/verif/target/asan RUSTFLAGS="--cfg dnssec_verif -Zsanitizer=address" cargo +nightly build --offline --target x86_64-unknown-linux-gnu --manifest-path /verif/harness/Cargo.toml >"$tmp/log" 2>&1 && asan=1 || { tail -20 "$tmp/log" >&2; skip "the nightly toolchain cannot build the runner with AddressSanitizer here"; }
	export ASAN_OPTIONS=exitcode=99:detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=0
	[ -z "$asan" ] || further AddressSanitizer /verif/target/asan/x86_64-unknown-linux-gnu/debug/vh 120
	VH_CORPUS=$tmp/corpus /verif/target/rel/vh C09 --tier quick --cap 40 --suffix .corpus >/dev/null 2>&1
	mv /verif/evidence/C09.corpus.json "$tmp/" 2>/dev/null
	[ -s "$tmp/corpus" ] || inconclusive "no inputs for Miri"
	shuf --random-source=<(yes "${VERIF_SEED:-1}") "$tmp/corpus" > "$tmp/shuffled"
	split -n l/6 "$tmp/shuffled" "$tmp/part."
	export MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR=/verif/target/miri
	: > "$tmp/empty"; cargo +nightly miri run --offline --manifest-path /verif/miri/Cargo.toml -- "$tmp/empty" 1 >"$tmp/log" 2>&1 || { tail -20 "$tmp/log" >&2; skip "Miri does not run here"; rm -f "$tmp"/part.*; }
	for p in "$tmp"/part.*; do [ -e "$p" ] || continue; cargo +nightly miri run --offline --manifest-path /verif/miri/Cargo.toml -- "$p" 110 >"$tmp/miri.${p##*.}" 2>&1 & done; wait
	n=0
	for o in "$tmp"/miri.*; do
		[ -e "$o" ] || continue
		if grep -qE "Undefined Behavior|^PANIC" "$o"; then
			mkdir -p /verif/replays; r=/verif/replays/C09-miri-${VERIF_SEED:-1}.txt
			{ echo "the last input below, under Miri (miri/src/main.rs)"; grep "^at" "$o" | tail -1; grep -v "^at" "$o" | tail -40; } > "$r"
			grep -E "Undefined Behavior|^PANIC" "$o" | head -3; echo "VIOLATION property=C09 replay=$r"
			sed -i 's/"violations": 0/"violations": 1/' /verif/evidence/C09.json; exit 1
		fi
		grep -q "^DONE" "$o" || { tail -5 "$o" >&2; inconclusive "Miri stopped early"; }
		n=$((n + $(awk '/^DONE/{print $2}' "$o")))
	done
	echo "--- Miri: $n inputs"; echo "$n" > "$tmp/miri-count"
fi
python3 - "$tmp" <<'P'
import glob, json, os, sys
p = '/verif/evidence/C09.json'
e = json.load(open(p))
for f in glob.glob(sys.argv[1] + '/C09.*.json'):
    k = os.path.basename(f).split('.')[1]
    if k != 'corpus': e['coverage']['observed']['executions in the %s run' % k] = json.load(open(f))['coverage']['evaluations']
if os.path.exists(sys.argv[1] + '/miri-count'): e['coverage']['observed']['inputs run under Miri'] = int(open(sys.argv[1] + '/miri-count').read())
if os.path.exists(sys.argv[1] + '/skipped'): e['coverage']['observed']['further runs skipped'] = len(open(sys.argv[1] + '/skipped').readlines())
json.dump(e, open(p, 'w'), indent=1)
P
exit 0
