//! C21: what is reported when verification fails.

use dnssec_prover::validation::ValidationError;

use crate::c_chain::*;
use crate::dns::*;
use crate::keys::*;
use crate::util::*;
use crate::world::*;
use crate::{ensure, viol};

/// Proofs changed by somebody without keys, in a DNS whose zones use supported algorithms and digests only
fn forged(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let cfg = if rng.chance(1, 6) { Cfg { unsupported: 0, zones: (2, 4), ..Cfg::rich() } } else { Cfg { sha1: 30, zsk_signs_keys: 30, ..Cfg::fast() } };
	let w = World::gen(&mut rng, &cfg);
	let k = rng.range(1, 3);
	let answers = pick_answers(&mut rng, &w, k);
	if answers.is_empty() { return Ok(()); }
	let base = w.proof(&answers.iter().map(|a| &a.2).collect::<Vec<_>>());
	let zones: Vec<Nm> = base.iter().filter(|r| r.ty() == DNSKEY).map(|r| r.name.clone()).collect();
	for _ in 0..12 {
		let mut p = base.clone();
		let mut how: Vec<&str> = Vec::new();
		let z = rng.pick(&zones).clone();
		let odd_alg = *rng.pick(&[0u8, 1, 3, 5, 6, 7, 12, 16, 17, 252, 253, 254, 255]);
		let odd_digest = *rng.pick(&[0u8, 3, 4, 5, 6, 128, 255]);
		for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
			let kind = rng.below(9);
			how.push(match kind {
				0 => { for r in p.iter_mut() { if let (true, RD::RRSig(s)) = (r.name == z, &mut r.rd) { if s.ty == DNSKEY { s.alg = odd_alg; } } } "the key set's signatures relabelled" },
				1 => {
					// a key of our own, in an algorithm nobody here knows, signing the key set
					let k = Key::of_alg(odd_alg, rng.next()).ksk();
					let k = if !alg_supported(k.alg) { k } else { Key::of_alg(253, 1).ksk() };
					p.push(Rec::new(&z, k.rd()));
					let old = rng.chance(1, 2);
					if old { p.retain(|r| !(r.name == z && matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY))); }
					p.push(Rec::new(&z, RD::RRSig(make_sig(&k, &z, &z, &[k.rd()], DNSKEY, 300, NOW - 10, NOW + 10))));
					"a foreign key of an unsupported algorithm"
				},
				2 => { for r in p.iter_mut() { if let (true, RD::DS { dt, .. }) = (r.name == z, &mut r.rd) { *dt = odd_digest; } } "the delegation's digest types changed" },
				3 => { for r in p.iter_mut() { if let (true, RD::DS { alg, .. }) = (r.name == z, &mut r.rd) { *alg = odd_alg; } } "the delegation's algorithms changed" },
				4 => { p.retain(|r| !(r.name == z && r.ty() == DS)); "the delegation removed from under its signature" },
				5 => {
					let k = Key::of_alg(253, rng.next()).ksk();
					p.retain(|r| r.name != z || !(matches!(r.ty(), DS | DNSKEY) || matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY)));
					p.push(Rec::new(&z, k.ds(&z, 2)));
					p.push(Rec::new(&z, k.rd()));
					p.push(Rec::new(&z, RD::RRSig(make_sig(&k, &z, &z, &[k.rd()], DNSKEY, 300, NOW - 10, NOW + 10))));
					"the zone replaced by one of an unsupported algorithm"
				},
				6 => { p.retain(|r| !(r.name == z && matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY))); "the key set's signatures removed" },
				7 => { for r in p.iter_mut() { if let (true, RD::DnsKey { alg, .. }) = (r.name == z, &mut r.rd) { *alg = odd_alg; } } "the keys' algorithms changed" },
				_ => mutate(&mut rng, &w, &mut p),
			});
		}
		rng.shuffle(&mut p);
		c.reset_artifacts();
		c.artifact("changes", format!("{:?} at {}", how, z));
		c.artifact("proof", show(&p));
		c.nontrivial(fp(&p));
		for h in how.iter() { c.count(&format!("changed: {}", h)); }
		match verify(c, &w, &p)? {
			Ok(v) => { judge(c, &w, &v)?; c.count("changed_proofs_still_accepted"); },
			Err(ValidationError::Invalid) => c.count("reported_as_invalid"),
			Err(e) => viol!("a proof in which no zone uses anything unsupported was reported as {:?} after {:?}", e, how),
		}
	}
	Ok(())
}

/// Keys published which are not, or not yet, used and which nothing vouches for
fn standby(z: &mut Zone, rng: &mut Rng) {
	if rng.chance(1, 2) { return; }
	for _ in 0..rng.range(1, 5) {
		let k = if rng.chance(1, 3) { Key::useless(rng) } else { Key::of_alg(*rng.pick(&[15u8, 15, 13, 14, 8, 10]), rng.next() >> 1) };
		let k = if rng.chance(1, 3) { k.ksk() } else { k };
		if z.keys.iter().all(|h| h.tag() != k.tag() && h.pubkey != k.pubkey) { z.keys.push(k); }
	}
}

/// Correct proofs one of whose zones uses nothing that is supported
fn unsupported(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let depth = rng.range(1, 4);
	let mut apexes = vec![Nm::root()];
	for i in 0..depth { let a = apexes[i].child(*rng.pick(&["z", "com", "a-b"])); apexes.push(a); }
	// other branches
	for _ in 0..rng.below(3) { let p = rng.pick(&apexes).clone(); let a = p.child(*rng.pick(&["q", "zz", "b"])); if !apexes.contains(&a) { apexes.push(a); } }
	let at = rng.range(1, depth);
	let kind = rng.below(3);
	let mut what = String::new();
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let alg = *rng.pick(&[15u8, 15, 13, 8]);
		let k = Key::of_alg(alg, rng.next() >> 1).ksk();
		z.simple_key(k.clone(), 2);
		if lvl == at {
			match kind {
				0 => {
					let n = rng.range(1, 3);
					z.ds = (0..n).map(|_| { let dt = *rng.pick(&[0u8, 3, 4, 4, 5, 6, 7, 128, 254, 255]); k.ds(&z.apex, dt) }).collect();
					// SHA-1 is not to be used when there is something better, even if that's nothing we support
					if rng.chance(1, 2) && z.ds.iter().any(|d| matches!(d, RD::DS { dt: 4, .. })) { z.ds.push(k.ds(&z.apex, 1)); }
					z.ds.sort();
					z.ds.dedup();
					what = "digest types".into();
				},
				_ => {
					let algs = [0u8, 1, 2, 3, 5, 6, 7, 9, 11, 12, 16, 17, 23, 252, 253, 254, 255];
					let n = rng.range(1, 3);
					z.keys.clear();
					for _ in 0..n {
						let k = Key::of_alg(*rng.pick(&algs), rng.next());
						z.keys.push(if rng.chance(2, 3) { k.ksk() } else { k });
					}
					// algorithm 1 has key tags of its own kind
					for k in z.keys.iter_mut() { if k.alg == 1 { k.alg = 12; } }
					let mut seen = Vec::new();
					z.keys.retain(|k| { let new = !seen.contains(&k.rd()); seen.push(k.rd()); new });
					let n = z.keys.len();
					z.key_signers = (0..n).collect();
					z.zone_signers = vec![0];
					z.ds = z.keys.iter().map(|k| k.ds(&z.apex, if kind == 1 { 2 } else { 1 + rng.below(2) as u8 })).collect();
					// a SHA-1 digest beside a stronger one counts for nothing
					if z.ds.iter().any(|d| matches!(d, RD::DS { dt: 2, .. })) { z.ds.retain(|d| matches!(d, RD::DS { dt: 2, .. })); }
					what = format!("{} keys", n);
				},
			}
		}
		standby(z, rng);
		let o = z.apex.child("data");
		z.sets.insert((o, TXT), vec![RD::Txt(b"data".to_vec())]);
	});
	let mut answers = vec![w.answer(&w.zones[at].apex.child("data"), TXT).unwrap()];
	for z in w.zones.iter() { if rng.chance(1, 3) { answers.push(w.answer(&z.apex.child("data"), TXT).unwrap()); } }
	let mut p = w.proof(&answers.iter().collect::<Vec<_>>());
	rng.shuffle(&mut p);
	c.artifact("what is unsupported", format!("{} of {}", what, w.zones[at].apex));
	c.artifact("proof", show(&p));
	c.nontrivial(fp(&p));
	match verify(c, &w, &p)? {
		Err(ValidationError::UnsupportedAlgorithm) => c.count(if kind == 0 { "reported_as_unsupported: digest types" } else { "reported_as_unsupported: keys" }),
		Err(e) => viol!("{} is correctly signed, but in unsupported algorithms ({}); reported as {:?}", w.zones[at].apex, what, e),
		Ok(_) => viol!("{} was verified though it uses unsupported algorithms only ({})", w.zones[at].apex, what),
	}
	Ok(())
}

/// A zone which uses both supported and unsupported keys, where what is supported is missing or wrong
fn downgraded(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let depth = rng.range(1, 3);
	let mut apexes = vec![Nm::root()];
	for i in 0..depth { let a = apexes[i].child(*rng.pick(&["z", "com", "a-b"])); apexes.push(a); }
	let at = rng.range(1, depth);
	let mut alien = Key::of_alg(253, 1);
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let alg = *rng.pick(&[15u8, 15, 13, 8]);
		z.simple_key(Key::of_alg(alg, rng.next() >> 1).ksk(), 2);
		if lvl == at {
			let alg = *rng.pick(&[0u8, 2, 3, 5, 6, 7, 9, 11, 12, 16, 17, 23, 252, 253, 254, 255]);
			alien = Key::of_alg(alg, rng.next()).ksk();
			z.keys.push(alien.clone());
			z.ds.push(alien.ds(&z.apex, 2));
			if rng.chance(1, 2) { let dt = *rng.pick(&[0u8, 3, 4, 5, 6, 255]); z.ds.push(z.keys[0].ds(&z.apex, dt)); }
			z.key_signers = vec![0, 1];
			z.zone_signers = vec![0, 1];
		}
		standby(z, rng);
		let o = z.apex.child("data");
		z.sets.insert((o, TXT), vec![RD::Txt(b"data".to_vec())]);
	});
	let z = w.zones[at].apex.clone();
	let mut answers = vec![w.answer(&z.child("data"), TXT).unwrap()];
	for z in w.zones.iter() { if rng.chance(1, 3) { answers.push(w.answer(&z.apex.child("data"), TXT).unwrap()); } }
	let whole = w.proof(&answers.iter().collect::<Vec<_>>());
	c.artifact("key", format!("{} of {}", alien.alg, z));
	match verify(c, &w, &whole)? {
		Ok(v) => { judge(c, &w, &v)?; c.count("doubly_signed_zones_verified"); },
		Err(e) => viol!("{} is correctly signed with a supported algorithm as well as with {}, but {:?}: {}", z, alien.alg, e, show(&whole)),
	}
	let ours = |r: &Rec| r.name == z && matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY && s.alg != alien.alg);
	for _ in 0..4 {
		let mut p = whole.clone();
		let mut data = false;
		let how = match rng.below(6) {
			5 => {
				data = true;
				p.retain(|r| !matches!(&r.rd, RD::RRSig(s) if s.ty == TXT && s.signer == z && s.alg != alien.alg));
				let d = rng.next() as u8;
				if rng.chance(1, 2) { for r in p.iter_mut() { if let (true, RD::Txt(t)) = (r.name.under_eq(&z), &mut r.rd) { t.push(d); } } }
				"the supported signatures of the data removed"
			},
			0 => { p.retain(|r| !ours(r)); "the supported signatures of the key set removed" },
			1 => { p.retain(|r| !ours(r)); let d = rng.next() as u8; for r in p.iter_mut() { if let (true, RD::Txt(t)) = (r.name.under_eq(&z), &mut r.rd) { t.push(d); } } "those removed and the data changed" },
			2 => { p.retain(|r| !ours(r) && !(r.name == z && matches!(&r.rd, RD::DnsKey { alg, .. } if *alg != alien.alg))); "the supported keys and signatures removed" },
			3 => {
				// the signatures of a key nobody can check are anybody's to make
				p.retain(|r| !(r.name == z && matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY)));
				let own = Key::of_alg(15, rng.next());
				p.push(Rec::new(&z, own.rd()));
				p.push(Rec::new(&z, RD::RRSig(make_sig(&alien, &z, &z, &[own.rd()], DNSKEY, 300, NOW - 10, NOW + 10))));
				"a foreign key added under a made-up signature"
			},
			_ => { for r in p.iter_mut() { if ours(r) { if let RD::RRSig(s) = &mut r.rd { s.alg = alien.alg; s.tag = alien.tag(); } } } "the supported signatures relabelled" },
		};
		rng.shuffle(&mut p);
		c.reset_artifacts();
		c.artifact("key", format!("{} of {}", alien.alg, z));
		c.artifact("changes", how.to_string());
		c.artifact("proof", show(&p));
		c.nontrivial(fp(&p));
		c.count(&format!("downgraded: {}", how));
		match verify(c, &w, &p)? {
			Err(ValidationError::Invalid) => c.count("downgrades_reported_as_invalid"),
			Err(e) => viol!("{} has keys and delegations in supported algorithms; with {} it was reported as {:?}", z, how, e),
			Ok(v) if data && answers.len() > 1 => {
				judge(c, &w, &v)?;
				ensure!(!v.recs.iter().any(|r| r.name == z.child("data")), "{} was verified with {}", z, how);
			},
			Ok(_) => viol!("{} was verified with {}", z, how),
		}
	}
	Ok(())
}

/// Proofs which hold nothing to verify
fn nothing(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let w = World::gen(&mut rng, &Cfg { unsupported: 0, ..Cfg::fast() });
	let k = rng.range(1, 3);
	let answers = pick_answers(&mut rng, &w, k);
	if answers.is_empty() { return Ok(()); }
	let mut p = w.proof(&answers.iter().map(|a| &a.2).collect::<Vec<_>>());
	let infra = |t: u16| t == DNSKEY || t == DS;
	let how = match rng.below(5) {
		0 => { p.retain(|r| infra(match &r.rd { RD::RRSig(s) => s.ty, o => o.ty() })); "keys and delegations only" },
		1 => { p.retain(|r| !matches!(&r.rd, RD::RRSig(s) if !infra(s.ty))); "data without signatures" },
		2 => { for r in p.iter_mut() { if let RD::RRSig(s) = &mut r.rd { if !infra(s.ty) { s.signer = Nm::new("elsewhere.example."); } } } "data signed by somebody else" },
		3 => { p.retain(|r| r.name == Nm::root() && infra(match &r.rd { RD::RRSig(s) => s.ty, o => o.ty() })); "the root's keys only" },
		_ => { p.clear(); "no records at all" },
	};
	rng.shuffle(&mut p);
	c.artifact("proof", show(&p));
	c.nontrivial(fp(&p));
	match verify(c, &w, &p)? {
		Err(ValidationError::Invalid) => c.count(&format!("refused: {}", how)),
		Err(e) => viol!("{}: reported as {:?}", how, e),
		Ok(v) => viol!("{}: accepted, verifying {} records", how, v.recs.len()),
	}
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C21", rule: "Each case changes a correct proof of a DNS without unsupported algorithms as somebody without keys could (relabelled, stripped, replaced or foreign signatures, keys and delegations); or \
			has one zone of a correct chain use unsupported digests or keys only; or strips the supported part of a doubly signed zone; or leaves nothing to verify. The kind of error must be the right one. Non-trivial: a distinct record list.",
		phases: vec![Phase::new("forged", 1000, 60_000, forged), Phase::new("unsupported", 2000, 60_000, unsupported), Phase::new("downgraded", 1500, 50_000, downgraded), Phase::new("nothing", 2500, 50_000, nothing)],
		required: &["reported_as_invalid", "doubly_signed_zones_verified", "downgrades_reported_as_invalid", "reported_as_unsupported: digest types", "reported_as_unsupported: keys", "refused: keys and delegations only", "refused: no records at all"],
		assumptions: &[],
		known: vec![],
	}]
}
