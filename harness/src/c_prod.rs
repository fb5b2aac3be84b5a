//! C20: what production builds trust. The builds run as processes of their own.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead as _, BufReader, Write as _};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use crate::c_chain::{forge, usable, with_tag};
use crate::c_codec::any_rec;
use crate::dns::*;
use crate::keys::*;
use crate::util::*;
use crate::world::*;
use crate::{ensure, viol};

struct Build { child: Child, w: ChildStdin, r: BufReader<ChildStdout> }
impl Drop for Build { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static BUILDS: RefCell<BTreeMap<String, Build>> = RefCell::new(BTreeMap::new()); }
/// Configuration and program
fn builds() -> Vec<(String, String)> {
	std::env::var("VH_PROD").unwrap_or("default=/verif/target/prod/debug/prod,full=/verif/target/prodfull/release/prod".into()).split(',').map(|x| { let (a, b) = x.split_once('=').unwrap(); (a.into(), b.into()) }).collect()
}
fn ask(name: &str, path: &str, q: &str) -> Result<String, Viol> {
	BUILDS.with(|b| {
		let mut b = b.borrow_mut();
		if !b.contains_key(name) {
			let mut child = Command::new(path).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("{}: {}", path, e));
			let (w, r) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
			b.insert(name.to_string(), Build { child, w, r });
		}
		let p = b.get_mut(name).unwrap();
		let mut l = String::new();
		let ok = p.w.write_all(q.as_bytes()).and_then(|_| p.w.write_all(b"\n")).and_then(|_| p.w.flush()).is_ok() && p.r.read_line(&mut l).unwrap_or(0) > 0;
		if !ok { let st = b.remove(name).map(|mut p| format!("{:?}", p.child.wait())); viol!("the {} build died: {}", name, st.unwrap_or_default()); }
		Ok(l.trim_end().to_string())
	})
}
enum Says { NoParse, No, Yes(BTreeSet<Rec>) }
fn verify_in(name: &str, path: &str, b: &[u8]) -> Result<Says, Viol> {
	let a = ask(name, path, &hex(b))?;
	Ok(match a.split(' ').next().unwrap_or("") {
		"P" => Says::NoParse,
		"E" => Says::No,
		"V" => {
			let h = a.split(' ').nth(4).unwrap_or("");
			Says::Yes(read_stream(&unhex(h)))
		},
		_ => panic!("answered {:?}", a),
	})
}
fn unhex(h: &str) -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn read_list(b: &[u8]) -> Vec<Rec> {
	let mut v = Vec::new();
	let mut p = 0;
	while p < b.len() { let (r, n) = read_rr(b, p, b); match r { Read::Ok((r, _)) | Read::Either(Some((r, _))) => v.push(r), _ => panic!("a record that was written cannot be read") } p = n; }
	v
}
fn read_stream(b: &[u8]) -> BTreeSet<Rec> { read_list(b).into_iter().collect() }
fn is_data(r: &Rec) -> bool { matches!(r.ty(), A | AAAA | NS | TXT | CNAME | DNAME | TLSA) }
fn wire(v: &[Rec]) -> Vec<u8> { v.iter().flat_map(|r| r.wire(60)).collect() }

struct Genuine { name: String, recs: Vec<Rec>, data: BTreeSet<Rec> }
fn genuine(kind: &str) -> Vec<Genuine> {
	include_str!("../data/genuine.txt").lines().filter_map(|l| {
		let f: Vec<&str> = l.split(' ').collect();
		if f[1] != kind { return None; }
		let recs = read_list(&unhex(f[2]));
		let data = recs.iter().filter(|r| is_data(r)).cloned().collect();
		Some(Genuine { name: f[0].into(), recs, data })
	}).collect()
}
/// The anchors, as published
const ANCHORS: [&str; 2] = ["./19036/8/2/49aac11d7b6f6446702e54a1607371607a1a41855200fd2ce1cdde32f24e8fb5", "./20326/8/2/e06d44b80b8f1d39a95c0b0d7c65d08458e880409bbc683457104237c7f8ec8d"];

fn c20_anchors(c: &mut Case) -> R {
	for (n, p) in builds() {
		for _ in 0..3 {
			let a = ask(&n, &p, "H")?;
			c.eval();
			let got: BTreeSet<String> = a.split(' ').skip(1).map(|s| s.to_string()).collect();
			let want: BTreeSet<String> = ANCHORS.iter().map(|s| s.to_string()).collect();
			ensure!(got == want, "the trust anchors of the {} build are {:?}", n, got);
			c.count("anchor_lists_read");
		}
	}
	Ok(())
}
/// Genuine proofs in any order, together, with unrelated records
fn c20_genuine(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let g = genuine("good");
	let mut recs: Vec<Rec> = Vec::new();
	let mut want: BTreeSet<Rec> = BTreeSet::new();
	let i = rng.below(g.len());
	c.artifact("proof", g[i].name.clone());
	recs.extend(g[i].recs.iter().cloned());
	want.extend(g[i].data.iter().cloned());
	let mut seen = BTreeSet::new();
	recs.retain(|r| seen.insert(r.clone()));
	if c.idx >= g.len() as u64 { rng.shuffle(&mut recs); }
	let b = wire(&recs);
	for (n, p) in builds() {
		c.eval();
		c.nontrivial(fnv(&b) ^ fnv(n.as_bytes()));
		match verify_in(&n, &p, &b)? {
			Says::Yes(r) => ensure!(r == want, "{} in the {} build proves\n{}instead of\n{}", g[i].name, n, show(&r.into_iter().collect::<Vec<_>>()), show(&want.iter().cloned().collect::<Vec<_>>())),
			_ => viol!("{}, a genuine proof, is refused by the {} build", g[i].name, n),
		}
		c.count("genuine_proofs_accepted");
	}
	Ok(())
}
/// Chains that start at any other key
fn c20_foreign(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let good = genuine("good");
	let kind = rng.below(8);
	let (recs, mut may, what): (Vec<Rec>, BTreeSet<Rec>, &str) = if kind == 0 {
		let mut r = genuine("rfc9102").remove(0).recs;
		if c.idx > 3 { rng.shuffle(&mut r); }
		(r, BTreeSet::new(), "the RFC 9102 example")
	} else {
		let mut cfg = if rng.chance(1, 2) { Cfg::fast() } else { Cfg::rich() };
		cfg.zones = (2, 4);
		let mut w = World::gen(&mut rng, &cfg);
		let mut what = "a private root";
		if kind < 5 {
			// a key with the tag, and perhaps the algorithm, of a real one
			let tag = *rng.pick(&[20326u16, 20326, 19036]);
			let alg = *rng.pick(&[8u8, 8, 15, 13]);
			let k = with_tag(Key::of_alg(alg, rng.below(5) as u64), tag, rng.next());
			if k.tag() != tag { return Ok(()); }
			what = if k.alg == 8 { "a root key with the tag and algorithm of a real one" } else { "a root key with the tag of a real one" };
			w.zones[0].keys = vec![k];
			w.zones[0].key_signers = vec![0];
			w.zones[0].zone_signers = vec![0];
			w.zones[0].finish();
			w.forget();
		}
		let mut recs = Vec::new();
		for n in w.interesting_names(&mut rng, 6) { for t in [A, TXT, NS] { if let Some(a) = w.answer(&n, t) { if usable(&a) { recs.extend(w.proof(&[&a])); } } } }
		for z in w.zones.iter() { for (n, t) in z.sets.keys() { if rng.chance(1, 4) && !n.is_wild() { if let Some(a) = w.answer(n, *t) { if usable(&a) { recs.extend(w.proof(&[&a])); } } } } }
		let mut may = BTreeSet::new();
		if rng.chance(1, 2) {
			// next to what is genuine, signing what is genuine, delegating to what is genuine
			let g = rng.pick(&good);
			let root_keys: Vec<RD> = g.recs.iter().filter(|r| r.name.n() == 0 && r.ty() == DNSKEY).map(|r| r.rd.clone()).collect();
			let evil = &w.zones[0].keys[w.zones[0].zone_signers[0]];
			let all = rng.chance(1, 2);
			if all { recs.extend(g.recs.iter().cloned()); may.extend(g.data.iter().cloned()); }
			match rng.below(4) {
				0 => { let mut ks = root_keys.clone(); ks.push(evil.rd()); recs.extend(forge(evil, &Nm::root(), &Nm::root(), DNSKEY, ks)); },
				1 => { recs.extend(forge(evil, &Nm::root(), &Nm::root(), DNSKEY, root_keys.clone())); },
				2 => { let x = Rec::new(&Nm::root(), evil.rd()); recs.push(x); recs.extend(root_keys.iter().map(|k| Rec::new(&Nm::root(), k.clone()))); },
				_ => {
					// a signature that claims the real key's tag
					let mut f = forge(evil, &Nm::root(), &Nm::root(), DNSKEY, vec![evil.rd()]);
					for r in f.iter_mut() { if let RD::RRSig(s) = &mut r.rd { s.tag = 20326; s.alg = 8; } }
					recs.extend(f);
				},
			}
			what = if all { "a foreign root next to the real one" } else { "a foreign root with keys of the real one" };
		}
		// a record signed straight by the foreign root, and one without signatures
		let evil = w.zones[0].keys[w.zones[0].zone_signers[0]].clone();
		if alg_supported(evil.alg) { let n = Nm::new("com."); recs.extend(forge(&evil, &Nm::root(), &n, TXT, vec![RD::Txt(b"no".to_vec())])); }
		if rng.chance(1, 3) { let r = any_rec(&mut rng); recs.push(r); }
		let mut seen = BTreeSet::new();
		recs.retain(|r| seen.insert(r.clone()));
		if rng.chance(1, 2) { rng.shuffle(&mut recs); }
		(recs, may, what)
	};
	if recs.is_empty() { return Ok(()); }
	let b = wire(&recs);
	c.artifact("stream", hex(&b));
	for (n, p) in builds() {
		c.eval();
		c.nontrivial(fnv(&b) ^ fnv(n.as_bytes()));
		match verify_in(&n, &p, &b)? {
			Says::Yes(r) => {
				for x in r.iter() { ensure!(may.contains(x), "{}: the {} build accepts {}", what, n, x); }
				c.count("accepted_as_far_as_genuine");
			},
			Says::NoParse => panic!("the stream does not parse"),
			Says::No => c.count(&format!("refused: {}", what)),
		}
	}
	may.clear();
	Ok(())
}
/// Genuine proofs with something changed never prove anything else
fn c20_changed(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let g = genuine("good");
	let i = rng.below(g.len());
	let mut recs = g[i].recs.clone();
	let mut b;
	match rng.below(4) {
		0 => { let k = rng.below(recs.len()); recs.remove(k); b = wire(&recs); },
		1 => { // somebody else's data under genuine signatures
			let k: Vec<usize> = (0..recs.len()).filter(|k| is_data(&recs[*k])).collect();
			let k = *rng.pick(&k);
			match &mut recs[k].rd { RD::Txt(t) => { if t.is_empty() { t.push(0) } else { let n = rng.below(t.len()); t[n] ^= 1 << rng.below(8); } }, _ => { let n = recs[k].name.child("x"); recs[k].name = n; } }
			b = wire(&recs);
		},
		_ => { b = wire(&recs); for _ in 0..rng.range(1, 2) { let at = rng.below(b.len()); b[at] ^= 1 << rng.below(8); } },
	}
	if rng.chance(1, 20) { let n = rng.below(b.len()); b.truncate(n); }
	c.artifact("stream", hex(&b));
	for (n, p) in builds() {
		c.eval();
		c.nontrivial(fnv(&b) ^ fnv(n.as_bytes()));
		match verify_in(&n, &p, &b)? {
			Says::Yes(r) => { for x in r.iter() { ensure!(g[i].data.contains(x), "a changed genuine proof proves {} in the {} build", x, n); } c.count("changed_without_effect"); },
			_ => c.count("changed_proofs_refused"),
		}
	}
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C20", rule: "Each case has production builds (default features; all features, optimised), running as processes of their own without test or verification flags, state their trust anchors or verify \
			a stream: genuine proofs from the public DNS in any order; chains from private roots, from keys with the tag (and algorithm) of a real root key, from the RFC 9102 example, also mixed with genuine \
			records; genuine proofs changed. Distinct streams per build are non-trivial.",
		phases: vec![Phase::new("anchors", 8, 8, c20_anchors), Phase::new("genuine", 1500, 10_000, c20_genuine), Phase::new("foreign", 3000, 100_000, c20_foreign), Phase::new("changed", 6000, 60_000, c20_changed)],
		required: &["anchor_lists_read", "genuine_proofs_accepted", "refused: a private root", "refused: a root key with the tag and algorithm of a real one", "refused: a root key with the tag of a real one",
			"refused: the RFC 9102 example", "refused: a foreign root with keys of the real one", "refused: a foreign root next to the real one", "changed_without_effect", "changed_proofs_refused"],
		assumptions: &["The genuine proofs (from the repository's own tests) all rest on key 20326; of 19036 only the anchor itself is compared with its publication."],
		known: vec![],
	}]
}
