//! C07: verification and resolution end, with no more work than promised.

use std::collections::{BTreeMap, BTreeSet};

use dnssec_prover::rr::RR;
use dnssec_prover::validation::{verify_rr_stream, VerifiedRRStream};

use crate::c_chain::{background, forge, set_anchors, with_tag};
use crate::dns::*;
use crate::keys::*;
use crate::util::*;
use crate::world::*;
use crate::{ensure, viol};

fn reset_counters() {
	#[cfg(dnssec_verif)]
	dnssec_prover::verif_hooks::reset_counters();
}
fn counters() -> (u64, u64, u64) {
	#[cfg(dnssec_verif)]
	return dnssec_prover::verif_hooks::counters();
	#[cfg(not(dnssec_verif))]
	return (0, 0, 0);
}

fn fp(recs: &[Rec]) -> u64 { let mut h = 0u64; for r in recs { h = h.rotate_left(5) ^ fnv(&r.wire(0)); } h }

/// Verifies under the work monitor
fn watch(c: &mut Case, anchors: Vec<dnssec_prover::rr::DS>, recs: &[Rec], what: &str) -> Result<bool, Viol> {
	c.eval();
	c.nontrivial(fp(recs));
	c.artifact(what, show(&recs[..recs.len().min(400)]));
	let n_anchors = anchors.len();
	set_anchors(anchors);
	let mut rng = Rng::new(fp(recs), "background", 0);
	let mut mixed: Vec<Rec> = Vec::new();
	if rng.chance(1, 3) {
		// Records of every type, unsigned, of names nothing leads to and of those which are there
		let also: Vec<Nm> = (0..2).filter(|_| !recs.is_empty()).map(|_| rng.pick(recs).name.clone()).collect();
		mixed = recs.to_vec();
		let keep = rng.chance(1, 2);
		for r in background(&mut rng, if keep { &also } else { &[] }) { let at = rng.below(mixed.len() + 1); mixed.insert(at, r); }
		c.count("inputs_with_records_of_every_type_mixed_in");
	}
	let recs = if mixed.is_empty() { recs } else { &mixed[..] };
	let rrs: Vec<RR> = recs.iter().map(|r| r.lib()).collect();
	reset_counters();
	let g = guard_m("verify_rr_stream", || verify_rr_stream(&rrs))?;
	let (checked, failed, hashes) = counters();
	let sigs: Vec<(&Nm, &Sig)> = recs.iter().filter_map(|r| if let RD::RRSig(s) = &r.rd { Some((&r.name, s)) } else { None }).collect();
	let keys = recs.iter().filter(|r| r.ty() == DNSKEY).count();
	let dses = recs.iter().filter(|r| r.ty() == DS).count();
	// Names a denial may be needed for
	let mut wild: BTreeSet<(Nm, &Nm)> = BTreeSet::new();
	for (n, s) in sigs.iter() { if (s.labels as usize) < n.n() { wild.insert((n.last(s.labels as usize + 1), &s.signer)); } }
	let max_hashes = wild.len() as u64 * 2 * 2501 + keys as u64 * (dses + n_anchors) as u64;
	ensure!(checked <= sigs.len() as u64, "{} signatures were checked though the input holds only {}", checked, sigs.len());
	ensure!(failed <= 1, "{} signatures failed to verify before verification stopped", failed);
	ensure!(failed == 0 || g.value.is_err(), "a signature failed, yet the input was accepted");
	ensure!(hashes <= max_hashes, "{} hashes were computed for {} names in need of denial and {} keys", hashes, wild.len(), keys);
	let size: usize = recs.iter().map(|r| r.rd.rdata().len() + 300).sum();
	ensure!(g.peak as usize <= size * 64 + (1 << 20), "verification used {} bytes of memory for an input of about {}", g.peak, size);
	c.add("signatures_checked", checked);
	c.add("signatures_failed", failed);
	c.add("hashes_computed", hashes);
	let ok = g.value.is_ok();
	c.count(if ok { "verifications_accepted" } else { "verifications_rejected" });
	if let Ok(v) = g.value {
		for n in recs.iter().map(|r| r.name.clone()).collect::<BTreeSet<_>>().iter().take(6) {
			let n = n.lib();
			guard("resolve_name", || v.resolve_name(&n).len())?;
		}
	}
	Ok(ok)
}

fn anchor(k: &Key) -> Vec<dnssec_prover::rr::DS> {
	match Rec::new(&Nm::root(), k.ds(&Nm::root(), 2)).lib() { RR::DS(d) => vec![d], _ => unreachable!() }
}

/// Delegations from everywhere to everywhere, all correctly signed, several times over
fn loops(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let depth = *rng.pick(&[1, 2, 3, 8, 12, 20, 30]);
	let nk = *rng.pick(&[1, 2, 2, 3]);
	let wide = rng.chance(1, 2);
	let mut names = vec![Nm::root()];
	for _ in 0..depth { let p = names.last().unwrap().clone(); names.push(p.child("a")); }
	let keys: Vec<Vec<Key>> = names.iter().map(|_| {
		let mut v: Vec<Key> = Vec::new();
		while v.len() < nk { let k = Key::ed25519(rng.next() >> 1).ksk(); if v.iter().all(|h| h.tag() != k.tag()) { v.push(k); } }
		v
	}).collect();
	let mut p: Vec<Rec> = Vec::new();
	let add = |zi: usize, k: &Key, owner: &Nm, ty: u16, rds: &Vec<RD>, p: &mut Vec<Rec>| {
		for r in forge(k, &names[zi], owner, ty, rds.clone()) { if !p.contains(&r) { p.push(r); } }
	};
	let self_deleg = rng.chance(1, 2);
	let upward = rng.chance(1, 6);
	let stop_at_root = rng.chance(1, 8);
	let with_data = rng.chance(3, 4);
	for zi in 0..names.len() {
		let krds: Vec<RD> = keys[zi].iter().map(|k| k.rd()).collect();
		for k in keys[zi].iter() { add(zi, k, &names[zi], DNSKEY, &krds, &mut p); if rng.chance(1, 2) { break; } }
		if stop_at_root { break; }
		let to: Vec<usize> = (0..names.len()).filter(|t| (*t == zi + 1) || (*t > zi && wide && *t <= zi + 6) || (*t == zi && self_deleg) || (*t < zi && upward && rng.chance(1, 10))).collect();
		for t in to {
			let ds: Vec<RD> = keys[t].iter().map(|k| k.ds(&names[t], 2)).collect();
			for k in keys[zi].iter() { add(zi, k, &names[t], DS, &ds, &mut p); }
		}
		if with_data && rng.chance(1, 2) {
			let o = names[zi].child("t");
			for k in keys[zi].iter() { add(zi, k, &o, TXT, &vec![RD::Txt(b"x".to_vec())], &mut p); }
		}
	}
	match rng.below(3) { 0 => {}, 1 => p.reverse(), _ => rng.shuffle(&mut p) }
	c.count("delegation_graphs");
	let ok = watch(c, anchor(&keys[0][0]), &p, "delegations")?;
	if ok { c.count("delegation_graphs_accepted"); }
	if c.idx < 3 { c.sample(|| format!("{} zones, {} keys each, {} records, self-delegation {}, upward {}", names.len(), nk, p.len(), self_deleg, upward)); }
	Ok(())
}

/// Colliding key tags and bad signatures at every stage
fn keytrap(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let zname = Nm::new("trap.");
	let root = Key::ed25519(rng.next() >> 1).ksk();
	let zone = Key::ed25519(rng.next() >> 1).ksk();
	let n = rng.range(1, 12);
	// keys which share the tag of the zone's real key
	let twins: Vec<Key> = (0..n).map(|_| { let s = rng.next() >> 1; with_tag(Key::ed25519(s), zone.tag(), s) }).collect();
	let mut zkeys = vec![zone.clone()];
	zkeys.extend(twins.iter().cloned());
	rng.shuffle(&mut zkeys);
	let all_vouched = rng.chance(1, 2);
	let krds: Vec<RD> = zkeys.iter().map(|k| k.rd()).collect();
	let dsrds: Vec<RD> = if all_vouched { zkeys.iter().map(|k| k.ds(&zname, 2)).collect() } else { vec![zone.ds(&zname, 2)] };
	let mut p = forge(&root, &Nm::root(), &Nm::root(), DNSKEY, vec![root.rd()]);
	p.extend(forge(&root, &Nm::root(), &zname, DS, dsrds));
	let mut keyset = forge(&zone, &zname, &zname, DNSKEY, krds);
	let sig = keyset.pop().unwrap();
	p.extend(keyset);
	let bad = |rng: &mut Rng, r: &Rec| -> Rec {
		let mut r = r.clone();
		if let RD::RRSig(s) = &mut r.rd { match rng.below(3) { 0 => s.sig = rng.bytes(64), 1 => { let i = rng.below(s.sig.len()); s.sig[i] ^= 1 << rng.below(8); }, _ => s.ttl ^= 1 } }
		r
	};
	let stage = rng.below(3);
	let many = rng.range(1, 40);
	if stage == 0 { for _ in 0..many { p.push(bad(&mut rng, &sig)); } if rng.chance(1, 2) { p.push(sig.clone()); } } else { p.push(sig.clone()); }
	let owner = zname.child("t");
	let data = forge(&zone, &zname, &owner, TXT, vec![RD::Txt(b"data".to_vec())]);
	p.push(data[0].clone());
	if stage == 1 { for _ in 0..many { p.push(bad(&mut rng, &data[1])); } }
	p.push(data[1].clone());
	if stage == 2 {
		// many sets, each badly signed
		for i in 0..many {
			let o = zname.child(&format!("n{}", i));
			let f = forge(&zone, &zname, &o, TXT, vec![RD::Txt(vec![i as u8])]);
			p.push(f[0].clone());
			p.push(bad(&mut rng, &f[1]));
		}
	}
	if rng.chance(1, 3) { rng.shuffle(&mut p); }
	c.count("key_tag_collisions");
	watch(c, anchor(&root), &p, "colliding keys and bad signatures")?;
	Ok(())
}

/// Denial by hashing with all parameters an attacker may choose, and many names that need it
fn hashes(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let zname = if rng.chance(1, 2) { Nm::root() } else { Nm::new("h.") };
	let root = Key::ed25519(rng.next() >> 1).ksk();
	let zone = if zname.n() == 0 { root.clone() } else { Key::ed25519(rng.next() >> 1).ksk() };
	let with_others = |rng: &mut Rng, k: &Key| -> Vec<RD> {
		let mut v = vec![k.rd()];
		if rng.chance(1, 3) { for _ in 0..*rng.pick(&[1, 4, 12, 20]) { let o = Key::useless(rng).rd(); if !v.contains(&o) { v.push(o); } } }
		v
	};
	let mut p = forge(&root, &Nm::root(), &Nm::root(), DNSKEY, with_others(&mut rng, &root));
	if zname.n() > 0 {
		p.extend(forge(&root, &Nm::root(), &zname, DS, vec![zone.ds(&zname, 2)]));
		p.extend(forge(&zone, &zname, &zname, DNSKEY, with_others(&mut rng, &zone)));
	}
	if rng.chance(1, 4) { p.extend(background(&mut rng, &[])); }
	let names = rng.range(1, 5);
	for i in 0..names {
		let w = zname.child("*");
		let at = zname.child(&format!("n{}", i));
		for ty in [A, TXT, AAAA, TLSA].iter().take(rng.range(1, 4)) {
			let rd = match *ty { A => RD::A([1, 2, 3, i as u8]), TXT => RD::Txt(vec![i as u8]), AAAA => RD::AAAA([i as u8; 16]), _ => RD::Tlsa(1, 1, 1, vec![i as u8]) };
			let s = make_sig(&zone, &zname, &w, &[rd.clone()], *ty, 300, NOW - 100, NOW + 100);
			let below = if rng.chance(1, 2) { at.clone() } else { at.child("x") };
			for o in [&at, &below].iter().take(rng.range(1, 2)) { p.push(Rec::new(o, rd.clone())); p.push(Rec::new(o, RD::RRSig(s.clone()))); }
		}
	}
	let sets = rng.range(0, 8);
	let any_ok = rng.chance(2, 3);
	for k in 0..sets {
		let iter = *rng.pick(&[0, 1, 2499, 2500, 2500, 2501, 4096, 65535]);
		let sl = k % 4 + if rng.chance(1, 20) { 200 } else { 0 };
		let salt = rng.bytes(sl);
		// A set that covers everything (but itself), or next to nothing
		let h = if any_ok && rng.chance(1, 2) { vec![7u8 + k as u8; 20] } else { rng.bytes(20) };
		let next = if any_ok { h.clone() } else { let mut n = h.clone(); n[19] = n[19].wrapping_add(1); n };
		let rd = RD::NSec3 { algo: 1, flags: rng.chance(1, 6) as u8, iter, salt, next, types: [TXT].into_iter().collect() };
		p.extend(forge(&zone, &zname, &zname.child(&b32(&h)), NSEC3, vec![rd]));
	}
	let mut seen = BTreeSet::new();
	p.retain(|r| seen.insert(r.clone()));
	if rng.chance(1, 2) { rng.shuffle(&mut p); }
	c.count("hashed_denials");
	if watch(c, anchor(&root), &p, "wildcards and hashed denials")? { c.count("hashed_denials_accepted"); }
	Ok(())
}

/// Whatever is left: correct proofs with records dropped, duplicated and repeated
fn mangled(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut cfg = Cfg::fast();
	cfg.multi_sig = 40;
	cfg.zsk_signs_keys = 40;
	let w = World::gen(&mut rng, &cfg);
	let mut p: Vec<Rec> = Vec::new();
	for zi in 0..w.zones.len() {
		for s in w.chain_sets(zi) { p.extend(s.recs()); }
		let z = &w.zones[zi];
		for (o, ty) in z.sets.keys() { p.extend(w.set(zi, o, *ty).recs()); }
		for (o, rd) in z.chain.iter() { p.extend(w.set(zi, o, rd.ty()).recs()); }
	}
	let mut seen = BTreeSet::new();
	p.retain(|r| seen.insert(r.clone()));
	for _ in 0..4 {
		let mut q = p.clone();
		for _ in 0..rng.below(4) {
			if q.is_empty() { break; }
			let i = rng.below(q.len());
			match rng.below(4) {
				0 => { q.remove(i); },
				1 => { let r = q[i].clone(); for _ in 0..rng.range(1, 5) { q.push(r.clone()); } },
				2 => { let t = q[i].ty(); q.retain(|r| r.ty() != t || t == RRSIG); },
				_ => if let RD::RRSig(s) = &mut q[i].rd { let k = rng.below(s.sig.len().max(1)); if k < s.sig.len() { s.sig[k] ^= 4; } },
			}
		}
		if rng.chance(1, 8) { q.retain(|r| r.name.n() == 0); c.count("proofs_of_the_root_only"); }
		rng.shuffle(&mut q);
		watch(c, w.anchors(), &q, "mangled proof")?;
	}
	Ok(())
}

/// Redirections built to keep a resolver busy
fn redirects(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut list: Vec<Rec> = Vec::new();
	let q;
	match rng.below(6) {
		0 => { // doubling names: f_n -> f_n-1.f_n-1
			let n = rng.range(1, 30);
			for i in (1..n).rev() { let t = Nm::new(&format!("f{}.f{}.", i - 1, i - 1)); list.push(Rec::new(&Nm::new(&format!("f{}.", i)), RD::DName(t))); }
			list.push(Rec::new(&Nm::new("f0."), RD::DName(if rng.chance(1, 2) { Nm::root() } else { Nm::new("f0.") })));
			q = Nm::new(&format!("x.f{}.", n - 1));
		},
		1 => { // growing names
			list.push(Rec::new(&Nm::new("g."), RD::DName(Nm::new(*rng.pick(&["g.g.", "a.g.", "g.", "h.g."])))));
			if rng.chance(1, 2) { list.push(Rec::new(&Nm::new("h.g."), RD::DName(Nm::new("g.")))); }
			q = Nm::new("q.g.");
		},
		2 => { // circles of CNAMEs, also entered from a tail
			let n = rng.range(1, 200);
			let tail = rng.below(50);
			for i in 0..n + tail {
				let t = if i + 1 == n + tail { tail } else { i + 1 };
				list.push(Rec::new(&Nm::new(&format!("c{}.", i)), RD::CName(Nm::new(&format!("c{}.", t)))));
			}
			q = Nm::new("c0.");
		},
		3 => { // DNAME and CNAME circles
			list.push(Rec::new(&Nm::new("d."), RD::DName(Nm::new("e."))));
			list.push(Rec::new(&Nm::new("e."), RD::DName(Nm::new(*rng.pick(&["d.", "e.", "x.d.", "."])))));
			list.push(Rec::new(&Nm::new("x.e."), RD::CName(Nm::new(*rng.pick(&["x.d.", "x.e.", "y.d."])))));
			q = Nm::new("x.d.");
		},
		4 => { // the root as owner
			list.push(Rec::new(&Nm::root(), RD::DName(Nm::new(*rng.pick(&[".", "r.", "r.r."])))));
			list.push(Rec::new(&Nm::root(), RD::CName(Nm::new(*rng.pick(&[".", "r."])))));
			if rng.chance(1, 2) { list.remove(rng.below(2)); }
			q = if rng.chance(1, 3) { Nm::root() } else { Nm::new("a.b.") };
		},
		_ => { // many of both
			let l = ["a", "b", "c"];
			let n = rng.range(5, 300);
			let name = |rng: &mut Rng| { let mut n = Nm::root(); for _ in 0..rng.range(0, 6) { n = n.child(*rng.pick(&l)); } n };
			for _ in 0..n {
				let o = name(&mut rng);
				let t = name(&mut rng);
				list.push(Rec::new(&o, if rng.chance(1, 2) { RD::CName(t) } else { RD::DName(t) }));
			}
			q = name(&mut rng);
		},
	}
	rng.shuffle(&mut list);
	c.artifact("verified records", show(&list[..list.len().min(400)]));
	c.artifact("query", q.text());
	c.eval();
	c.nontrivial(fp(&list) ^ fnv(q.text().as_bytes()));
	let rrs: Vec<RR> = list.iter().map(|r| r.lib()).collect();
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 0 };
	let qn = q.lib();
	let g = guard_lim("resolve_name", 10_000_000, || v.resolve_name(&qn).len())?;
	c.count("redirections_resolved");
	c.add("allocations_resolving", g.allocs);
	if g.peak > 4 << 20 { viol!("resolving used {} bytes of memory", g.peak); }
	Ok(())
}

pub fn checks() -> Vec<Check> {
	let _: Option<BTreeMap<u8, u8>> = None;
	vec![Check {
		id: "C07", rule: "Each case builds, with correctly signing keys, a delegation graph that reaches zones by up to 2^30 ways and through loops, a zone with up to 13 keys of one tag and up to 40 bad \
			signatures, wildcards needing hashed denial under hostile iteration counts and salts, a mangled proof of a whole tree, or a circle or doubling chain of redirections. Counting hooks in the library give \
			the signatures checked and failed and the hashes computed; those are bounded by counts taken from the input, and CPU time and memory by a monitor. Every distinct input is non-trivial.",
		phases: vec![Phase::new("loops", 600, 20_000, loops), Phase::new("keytrap", 1200, 40_000, keytrap), Phase::new("hashes", 600, 20_000, hashes),
			Phase::new("mangled", 400, 20_000, mangled), Phase::new("redirects", 4000, 200_000, redirects)],
		required: &["delegation_graphs", "delegation_graphs_accepted", "key_tag_collisions", "hashed_denials", "hashed_denials_accepted", "redirections_resolved", "verifications_accepted", "verifications_rejected"],
		assumptions: &["Termination is decided by a bound of 25 s of CPU time per call (10 s for resolving), about a thousand times what the slowest input here needs."],
		known: vec![],
	}]
}
