from bugs3 import *

bug('c03-iter-break', 'C03', [
 (V, "				// length, but we just use 2500 for all key types\n				continue;", "				// length, but we just use 2500 for all key types\n				break;"),
], 'a wildcard answer from a zone with two sets of NSEC3 records, the one with too many iterations coming first in the proof',
 'usable NSEC3 records after one with too many iterations are ignored', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	for first in [false, true] {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"x")], Opt { at: Some("a.t."), ..Opt::default() });
		let h = n3hash("a.t.", 0, b"");
		let add = |p: &mut Proof, iter: u16, h: &[u8]| p.set(&t, "t.", &format!("{}.t.", b32(&dec(h))), T_NSEC3, &[nsec3(0, iter, b"", &inc(h), &[T_TXT])]);
		if first { add(&mut p, 5000, &[9; 20]); }
		add(&mut p, 0, &h);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
""")

# ---------------------------------------------------------------- C21
bug('c21-digests', 'C21', [
 (V, "	if !had_ds { return Err(ValidationError::Invalid); }\n	if !had_known_digest_type { return Err(ValidationError::UnsupportedAlgorithm); }\n", "	if !had_ds || !had_known_digest_type { return Err(ValidationError::Invalid); }\n"),
], 'a zone whose delegation uses digest types unknown to the library only', 'zones with unsupported digests are reported as forged', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	let mut ds = t.ds("t.", 2);
	ds[3] = 3;
	p.set(&r, ".", "t.", T_DS, &[ds]);
	p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd()]);
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert_eq!(p.verify().unwrap_err(), dnssec_prover::validation::ValidationError::UnsupportedAlgorithm);
""")
bug('c21-relabel', 'C21', [
 (V, "			.any(|key| key.key_tag() == sig.key_tag && key.alg == sig.alg);", "			.any(|key| key.key_tag() == sig.key_tag);"),
 (V, "	for dnskey in dnskeys.into_iter() {\n", "	// No use in looking for keys if we couldn't use them\n	if !(8..=15).contains(&sig.alg) { return Err(ValidationError::UnsupportedAlgorithm); }\n	for dnskey in dnskeys.into_iter() {\n"),
 (V, "	if found_unsupported_alg && !had_supported_alg {\n		Err(ValidationError::UnsupportedAlgorithm)\n	} else {\n		Err(ValidationError::Invalid)\n	}", "	if found_unsupported_alg { Err(ValidationError::UnsupportedAlgorithm) } else { Err(ValidationError::Invalid) }"),
], 'a proof in which the algorithm number of a signature over a key set was changed', 'anyone can have a proof reported as using unsupported algorithms, rather than as invalid, by changing the algorithm of a signature', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	p.setx(&t, "t.", "t.", T_DNSKEY, &[t.rd()], Opt { alg: Some(16), ..Opt::default() });
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert_eq!(p.verify().unwrap_err(), dnssec_prover::validation::ValidationError::Invalid);
""")
bug('c21-data', 'C21', [
 (V, "				Err(ValidationError::UnsupportedAlgorithm) => continue,\n", "				Err(ValidationError::UnsupportedAlgorithm) => { had_unsupported_data = true; continue },\n"),
 (V, "	if res.is_empty() { return Err(ValidationError::Invalid) }", "	if res.is_empty() {\n		return Err(if had_unsupported_data { ValidationError::UnsupportedAlgorithm } else { ValidationError::Invalid });\n	}"),
 (V, "	let mut latest_inception = 0;\n", "	let mut latest_inception = 0;\n	let mut had_unsupported_data = false;\n"),
], 'a zone with keys of supported and unsupported algorithms, and a proof from which the supported signatures over the data were removed',
 'removing the signatures over the data of a doubly signed zone has the proof reported as using unsupported algorithms', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	let mut odd = Key::new(3);
	odd.alg = 253;
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2), odd.ds("t.", 2)]);
	p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd(), odd.rd()]);
	let mut q = p.clone();
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert!(p.verify().unwrap().has("a.t.", T_TXT));
	q.set(&odd, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert_eq!(q.verify().unwrap_err(), dnssec_prover::validation::ValidationError::Invalid);
""")
bug('c21-nothing', 'C21', [
 (V, "	if res.is_empty() { return Err(ValidationError::Invalid) }", "	if res.is_empty() && seen_zones.len() < 3 { return Err(ValidationError::Invalid) }"),
], 'a proof holding the keys and delegations of three zones and no data', 'proofs without any data are accepted', rs="""
	let (r, t, u) = (Key::new(1), Key::new(2), Key::new(3));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	assert!(p.verify().is_err());
	p.zone(&t, "t.", &u, "u.t.");
	assert!(p.verify().is_err());
""")

bug('c02-first-proof', 'C02', [
 (V, "			if name_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n				continue 'proof_search_loop;",
     "			if name_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);\n				break 'proof_search_loop;"),
], 'a proof with two wildcard expansions, the denial of the one looked at first being there and the other missing',
 'one NSEC record proving the absence of one name is taken to settle all of them', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	for (x, y) in [("b", "x"), ("x", "b")] {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"x")], Opt { at: Some(&format!("{}.t.", x)), ..Opt::default() });
		p.set(&t, "t.", if x == "b" { "a.t." } else { "w.t." }, T_NSEC, &[nsec(if x == "b" { "c.t." } else { "y.t." }, &[T_TXT])]);
		assert!(p.verify().unwrap().has(&format!("{}.t.", x), T_TXT));
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"x")], Opt { at: Some(&format!("{}.t.", y)), ..Opt::default() });
		if let Ok(v) = p.verify() { assert!(!v.has(&format!("{}.t.", y), T_TXT), "accepted without a denial"); }
	}
""")
bug('c02-same-zone', 'C02', [
 (V, "			if hash_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);",
     "			if hash_contained {\n				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name && *z != zone);"),
], 'a proof with two wildcard expansions of one NSEC3 zone, of which one has no denial', 'an NSEC3 record proving the absence of one name settles all names of its zone', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	for (x, y) in [("b", "x"), ("x", "b")] {
		let (x, y) = (format!("{}.t.", x), format!("{}.t.", y));
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"x")], Opt { at: Some(&x), ..Opt::default() });
		let h = n3hash(&x, 0, b"");
		p.set(&t, "t.", &format!("{}.t.", b32(&dec(&h))), T_NSEC3, &[nsec3(0, 0, b"", &inc(&h), &[T_TXT])]);
		assert!(p.verify().unwrap().has(&x, T_TXT));
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"x")], Opt { at: Some(&y), ..Opt::default() });
		if let Ok(v) = p.verify() { assert!(!v.has(&y, T_TXT), "accepted without a denial"); }
	}
""")
bug('c03-tag-break', 'C03', [
 (V, "			if dnskey.alg != sig.alg { continue; }\n", "			if dnskey.alg != sig.alg { break; }\n"),
], 'a key set in which a key of another algorithm has the same tag as the one that signed, and comes first', 'the search for the key which made a signature ends at one with the same tag and another algorithm', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	let mut other = t.rd();
	other[3] = 253;
	other.truncate(20);
	let mut v = 0u16;
	while tag(&other) != t.tag() { v += 1; other[18..].copy_from_slice(&v.to_be_bytes()); }
	for first in [false, true] {
		let mut p = Proof::root(&r);
		p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
		p.set(&t, "t.", "t.", T_DNSKEY, &if first { [other.clone(), t.rd()] } else { [t.rd(), other.clone()] });
		p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
""")
bug('c03-param-slots', 'C03', [
 (V, "				.any(|(iterations, salt, _)| *iterations == nsec3.hash_iterations && *salt == &nsec3.salt)\n			{ continue; }", "				.any(|(iterations, _, _)| *iterations == nsec3.hash_iterations)\n			{ continue; }"),
], 'a wildcard answer from a zone with two sets of NSEC3 records which differ in their salt only, the other one coming first in the proof',
 'NSEC3 records are ignored if the proof also has some with another salt and the same number of iterations', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	for first in [false, true] {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"x")], Opt { at: Some("a.t."), ..Opt::default() });
		let h = n3hash("a.t.", 1, b"new");
		if first { p.set(&t, "t.", &format!("{}.t.", b32(&[9; 20])), T_NSEC3, &[nsec3(0, 1, b"old", &[10; 20], &[T_TXT])]); }
		p.set(&t, "t.", &format!("{}.t.", b32(&dec(&h))), T_NSEC3, &[nsec3(0, 1, b"new", &inc(&h), &[T_TXT])]);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
""")
bug('c04-equal', 'C04', [
 (V, "	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }", "	if latest_inception > earliest_expiry { return Err(ValidationError::Invalid) }"),
], 'a proof in which one signature expires in the very second in which another begins', 'proofs which are valid at no time are accepted', rs="""
	let (r, t) = (Key::new(1), Key::new(2));
	for gap in [1, 0] {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "a.t.", T_TXT, &[txt(b"x")], Opt { inc: 1_800_000_000 - gap, exp: 1_900_000_000, ..Opt::default() });
		assert_eq!(p.verify().is_ok(), gap > 0);
	}
""")

# ---------------------------------------------------------------- C22
J = 'wasmpack/doh_lookup.js'
def jsbug(id, edits, needs, breaks, js):
    bug(id, 'C22', edits, needs, breaks, sh="""
#!/bin/bash
# Runs the lookup script of the repository in the current directory in node, with scripted bindings.
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 60 node "$here/demo.mjs"
""")
    BUGS[-1]['files'] = ['doh_demo.mjs']
    BUGS[-1]['write'] = {'demo.mjs': 'import {load, answering, ensure} from "./doh_demo.mjs";\n' + js.lstrip('\n')}
jsbug('c22-b64', [(J, "b64.replace(/\\+/g, '-').replace(/\\//g, '_')", "b64.replace(/\\+/, '-').replace(/\\//g, '_')")],
 'a query whose base64 form has two plus signs', 'some queries reach the resolver with characters that are no base64url', """
const q = new Uint8Array([0xfb, 0xef, 0xbe, 0xff, 0xff, 0xff, 1]);
const lookup = await load({"a.b.": {queries: [q], check: g => g.length == 1}});
const log = answering(() => new Response(new Uint8Array([1, 2])));
await lookup("a.b.", "txt", "https://doh.example/q");
ensure(log.length == 1 && log[0] == "https://doh.example/q?dns=" + Buffer.from(q).toString("base64url"), log[0]);
""")
jsbug('c22-status', [(J, 'if (!resp.ok) {', 'if (resp.status >= 500) {')],
 'a resolver which refuses with an HTTP error below 500 whose body looks like an answer', 'bodies of HTTP errors are taken as answers', """
const lookup = await load({"a.b.": {queries: [new Uint8Array([1])], check: g => g.length == 1}});
for (const status of [200, 404, 503]) {
	answering(() => new Response(new Uint8Array([1, 2]), {status}));
	const r = JSON.parse(await lookup("a.b.", "txt", "https://doh.example/q"));
	ensure(("error" in r) == (status != 200), status + ": " + JSON.stringify(r));
}
""")
jsbug('c22-shared', [(J, "			var queries_pending = 0;\n", ""), (J, "export async function lookup_doh(", "var queries_pending = 0;\nexport async function lookup_doh(")],
 'a lookup which runs while another one waits for its answer, or after one that failed', 'lookups count each others queries and give nothing at all', """
const lookup = await load({"a.b.": {queries: [new Uint8Array([1])], check: g => g.length == 1}, "c.d.": {queries: [new Uint8Array([2])], check: g => g.length == 1}});
let n = 0;
answering(async (r, q) => { if (q == "AQ") await new Promise(r => setTimeout(r, 200)); return new Response(new Uint8Array([1, 2])); });
const rs = await Promise.all([lookup("a.b.", "txt", "https://doh.example/q"), lookup("c.d.", "a", "https://doh.example/q")]);
for (const r of rs) ensure(typeof r == "string" && JSON.parse(r).valid_from === 1, String(r));
""")
jsbug('c22-case', [(J, 'ty.toLowerCase() == "aaaa"', 'ty == "aaaa" || ty == "AAAA"')],
 'the type aaaa in mixed case', 'mixed-case type names are no longer supported for AAAA', """
const lookup = await load({"a.b.": {queries: [new Uint8Array([1])], check: (g, ty) => ty == 28}});
for (const t of ["aaaa", "AAAA", "Aaaa"]) {
	answering(() => new Response(new Uint8Array([1, 2])));
	const r = JSON.parse(await lookup("a.b.", t, "https://doh.example/q"));
	ensure(!("error" in r), t + ": " + JSON.stringify(r));
}
""")
jsbug('c22-large', [(J, "var buf = new Uint8Array(array);", "var buf = new Uint8Array(array, 0, Math.min(array.byteLength, 16384));")],
 'an answer of more than 16 KiB', 'long answers are cut off', """
const lookup = await load({"a.b.": {queries: [new Uint8Array([1])], check: g => g[0].length == 2 * 40000}});
answering(() => new Response(new Uint8Array(40000)));
const r = JSON.parse(await lookup("a.b.", "txt", "https://doh.example/q"));
ensure(!("error" in r), JSON.stringify(r));
""")
jsbug('c22-early', [(J, "						wasm.process_query_response(builder, buf);\n						queries_pending -= 1;\n", "						if (buf.length >= 12) wasm.process_query_response(builder, buf);\n						queries_pending -= buf.length >= 12;\n")],
 'an answer without content', 'a lookup with an empty answer gives undefined instead of an error', """
const lookup = await load({"a.b.": {queries: [new Uint8Array([1])], check: g => g[0].length > 2}});
answering(() => new Response(new Uint8Array(0)));
const r = await lookup("a.b.", "txt", "https://doh.example/q");
ensure(typeof r == "string" && "error" in JSON.parse(r), String(r));
""")
jsbug('c22-throw', [(J, "					try {\n						var resp = await fetch(doh_endpoint + \"?dns=\" + b64url,\n							{headers: {\"accept\": \"application/dns-message\"}});\n", "					var resp = await fetch(doh_endpoint + \"?dns=\" + b64url,\n						{headers: {\"accept\": \"application/dns-message\"}});\n					try {\n")],
 'a connection which fails', 'a failing connection rejects the promise instead of giving an error', """
const lookup = await load({"a.b.": {queries: [new Uint8Array([1])], check: g => true}});
answering(() => { throw new TypeError("Failed to fetch"); });
const r = await lookup("a.b.", "txt", "https://doh.example/q").catch(e => "thrown " + e);
ensure(typeof r == "string" && r[0] == "{" && "error" in JSON.parse(r), String(r));
""")

# ---------------------------------------------------------------- C23
CONF = r"""
#!/bin/bash
# Builds the program beside this file against the crate in the current directory, in several configurations, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
std = ["dnssec-prover/std"]
tokio = ["dnssec-prover/tokio"]
validation = ["dnssec-prover/validation"]
[dependencies]
dnssec-prover = { path = "$repo", default-features = false }
END
cp "$here/Cargo.lock.prod" "$t/Cargo.lock"
cd "$t"
for f in "" "--release" "--features validation" "--features std" "--features tokio"; do
	CARGO_TARGET_DIR="$t/target" cargo build --offline -q $f || exit 3
	d=debug; [ "$f" = "--release" ] && d=release
	timeout 60 "$t/target/$d/demo" || { echo "wrong in a build with '$f'"; exit 1; }
done
"""
def conf(id, edits, needs, breaks, rs):
    bug(id, 'C23', edits, needs, breaks, sh=CONF)
    BUGS[-1]['files'] = ['Cargo.lock.prod']
    BUGS[-1]['write'] = {'demo.rs': '#![allow(unused_imports)]\nuse dnssec_prover::query::*;\nuse dnssec_prover::rr::*;\nuse dnssec_prover::ser::*;\nfn main() {' + rs + '}\n'}
conf('c23-asked', [(Q, "	dnskeys_requested: Vec<Name>,", "	dnskeys_requested: alloc::collections::BTreeSet<Name>,"), (Q, "dnskeys_requested: Vec::with_capacity(MAX_REQUESTS),", "dnskeys_requested: alloc::collections::BTreeSet::new(),"),
 (Q, "				self.dnskeys_requested.push(key_name.clone());\n", "				debug_assert!(self.dnskeys_requested.insert(key_name.clone()));\n")],
 'an optimised build', 'zones already asked for are asked for again, so no proof gets built', """
	// an answer with a signature by the root, given again and again
	let mut m = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 16, 0, 1];
	m.extend([0, 0, 46, 0, 1, 0, 0, 0, 9, 0, 19 + 64, 0, 16, 13, 0, 0, 0, 0, 9, 0, 0, 0, 9, 0, 0, 0, 1, 0, 1, 0]);
	m.extend([7; 64]);
	let (mut b, _) = ProofBuilder::new(&"a.".try_into().unwrap(), 16);
	let mut r = QueryBuf::new_zeroed(m.len() as u16);
	r.copy_from_slice(&m);
	assert_eq!(b.process_response(&r).unwrap().len(), 1);
	assert_eq!(b.process_response(&r).unwrap().len(), 0, "asked again");
	assert!(b.finish_proof().is_ok());
""")
conf('c23-case', [(R, "		Ok(Name(s.to_ascii_lowercase()))", "		#[cfg(feature = \"std\")]\n		let s = s.to_ascii_lowercase();\n		Ok(Name(s))")],
 'a build without std and a name with upper-case letters', 'names keep their upper case without std', """
	let n: Name = "Some.NAME.".try_into().unwrap();
	assert_eq!(n.as_str(), "some.name.");
""")
conf('c23-limit', [(Q, "const MAX_REQUESTS: usize = 10;", "const MAX_REQUESTS: usize = if cfg!(feature = \"std\") { 10 } else { 8 };")],
 'a build without std and a name which takes nine or ten queries', 'fewer queries are allowed without std', """
	let (mut b, _) = ProofBuilder::new(&"a.".try_into().unwrap(), 16);
	for (i, s) in ["", "a", "b", "c", "d"].iter().enumerate() {
		let mut m = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 16, 0, 1];
		let mut n = Vec::new();
		if !s.is_empty() { n.push(1); n.extend(s.as_bytes()); }
		n.push(0);
		m.extend([0, 0, 46, 0, 1, 0, 0, 0, 9, 0, 18 + n.len() as u8 + 64, 0, 16, 13, 0, 0, 0, 0, 9, 0, 0, 0, 9, 0, 0, 0, 1, 0, 1]);
		m.extend(n);
		m.extend([7; 64]);
		let mut r = QueryBuf::new_zeroed(m.len() as u16);
		r.copy_from_slice(&m);
		assert_eq!(b.process_response(&r).unwrap().len(), if i == 0 { 1 } else { 2 });
		assert!(b.awaiting_responses());
	}
""")
