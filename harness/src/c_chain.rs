//! C01-C06: what verification accepts, judged against the truth of a synthetic signed DNS.

use std::collections::{BTreeMap, BTreeSet};

use dnssec_prover::rr::RR;
use dnssec_prover::validation::{verify_rr_stream, ValidationError, VerifiedRRStream};

use crate::dns::*;
use crate::keys::*;
use crate::util::*;
use crate::world::*;
use crate::{ensure, viol};

pub fn set_anchors(a: Vec<dnssec_prover::rr::DS>) {
	#[cfg(dnssec_verif)]
	dnssec_prover::verif_hooks::set_root_anchors(Some(a));
	#[cfg(not(dnssec_verif))]
	{ let _ = a; panic!("build with --cfg dnssec_verif"); }
}

#[derive(Debug, Clone)]
pub struct Verdict { pub recs: Vec<Rec>, pub from: u64, pub exp: u64, pub ttl: u32 }
impl Verdict { pub fn set(&self) -> BTreeSet<Rec> { self.recs.iter().cloned().collect() } }

/// Verifies, and checks what must hold whatever the input
pub fn verify(c: &mut Case, w: &World, recs: &[Rec]) -> Result<Result<Verdict, ValidationError>, Viol> {
	set_anchors(w.anchors());
	let mut rrs: Vec<RR> = recs.iter().map(|r| r.lib()).collect();
	let mut rng = Rng::new(fp(recs), "background", 0);
	if rng.chance(1, 5) {
		// Nothing leads to these, so they may not make a difference
		for r in background(&mut rng, &[]) { let at = rng.below(rrs.len() + 1); rrs.insert(at, r.lib()); }
		c.count("verifications_with_unreachable_records_mixed_in");
	}
	if rng.chance(1, 8) {
		if let Some(sets) = crowd(&mut rng, w, recs) {
			// Other names of a zone, which are as true and make no difference to what else is
			let early = rng.chance(1, 2);
			for s in sets { for r in s { let at = if early { rng.below(rrs.len() / 4 + 1) } else { rng.below(rrs.len() + 1) }; rrs.insert(at, r.lib()); } }
			c.count("verifications_amid_a_crowd_of_other_names");
			return Ok(match verify_lib(c, &rrs)? {
				Ok(mut v) => {
					v.recs.retain(|r| !r.name.0.iter().any(|l| l == CROWD.as_bytes()));
					if v.recs.is_empty() { Err(ValidationError::Invalid) } else { Ok(v) }
				},
				Err(e) => Err(e),
			});
		}
	}
	verify_lib(c, &rrs)
}
pub const CROWD: &str = "zz--crowd";
/// Names, uses of a wildcard with their denial, and delegations in one of the zones that the proof holds the keys of. Signed for longer, and to be
/// cached for longer, than anything else.
fn crowd(r: &mut Rng, w: &World, recs: &[Rec]) -> Option<Vec<Vec<Rec>>> {
	let zones: Vec<usize> = (0..w.zones.len()).filter(|i| { let z = &w.zones[*i]; !z.attacker && z.apex.text_len() < 180 && recs.iter().any(|r| r.ty() == DNSKEY && r.name == z.apex) }).collect();
	if zones.is_empty() { return None; }
	let z = &w.zones[if r.chance(1, 2) { zones[0] } else { *r.pick(&zones) }];
	let key = z.zone_signers.iter().map(|k| &z.keys[*k]).find(|k| alg_supported(k.alg) && k.flags & 256 != 0 && k.proto == 3)?;
	let n = if matches!(key.alg, 8 | 10) { r.range(1, 6) } else { *r.pick(&[2, 8, 20, 40, 70]) };
	let top = z.apex.child(CROWD);
	let sign = |k: &Key, zone: &Nm, owner: &Nm, ty: u16, rds: Vec<RD>| -> Vec<Rec> {
		let s = make_sig(k, zone, owner, &rds, ty, u32::MAX, 60 * 60 * 24 * 365 * 27, 60 * 60 * 24 * 365 * 27 - 1);
		let mut o: Vec<Rec> = rds.into_iter().map(|rd| Rec::new(owner, rd)).collect();
		o.push(Rec::new(owner, RD::RRSig(s)));
		o
	};
	let mut o: Vec<Vec<Rec>> = Vec::new();
	match r.below(4) {
		0 => for i in 0..n { o.push(sign(key, &z.apex, &top.child(&format!("n{}", i)), TXT, vec![RD::Txt(vec![i as u8])])); },
		// of every type, and of any size
		3 => for i in 0..n {
			let ty = *r.pick(&[A, AAAA, TXT, TXT, TLSA, CNAME, DNAME]);
			let rd = if ty == TXT && r.chance(1, 2) { let n = *r.pick(&[1, 255, 256, 1000, 4000, 4000, 30_000]); RD::Txt(r.bytes(n)) } else { crate::c_query::small_rd(r, ty) };
			o.push(sign(key, &z.apex, &top.child(&format!("n{}", i)), ty, vec![rd]));
		},
		1 => {
			let wild = sign(key, &z.apex, &top.child("*"), TXT, vec![RD::Txt(b"crowd".to_vec())]);
			for i in 0..n { let mut s = wild.clone(); for r in s.iter_mut() { r.name = top.child(&format!("n{}", i)); } o.push(s); }
			o.push(sign(key, &z.apex, &top.child("m"), NSEC, vec![RD::NSec { next: top.child("o"), types: [TXT, RRSIG, NSEC].into() }]));
		},
		_ => {
			let k = Key::ed25519(1 << 40 | r.below(1000) as u64).ksk();
			for i in 0..n.min(30) {
				let a = top.child(&format!("d{}", i));
				o.push(sign(key, &z.apex, &a, DS, vec![k.ds(&a, 2)]));
				o.push(sign(&k, &a, &a, DNSKEY, vec![k.rd()]));
				if r.chance(1, 2) { o.push(sign(&k, &a, &a, TXT, vec![RD::Txt(b"crowd".to_vec())])); }
			}
		},
	}
	Some(o)
}
/// Records of every type, below a name no world has
pub fn background(r: &mut Rng, also: &[Nm]) -> Vec<Rec> {
	let top = Nm::root().child("zz--noise");
	let mut names = vec![top.clone()];
	for _ in 0..3 { let p = r.pick(&names).clone(); names.push(p.child(*r.pick(&["a", "*", "_tcp", "b"]))); }
	names.extend(also.iter().cloned());
	let n = *r.pick(&[1, 2, 4, 8, 20, 40]);
	(0..n).map(|_| {
		let ty = *r.pick(&SUPPORTED);
		let mut rd = crate::c_query::small_rd(r, ty);
		if let RD::RRSig(s) = &mut rd { s.signer = r.pick(&names[..4]).clone(); if r.chance(1, 2) { s.ty = *r.pick(&SUPPORTED); } }
		Rec::new(r.pick(&names), rd)
	}).collect()
}
pub fn verify_lib(c: &mut Case, rrs: &[RR]) -> Result<Result<Verdict, ValidationError>, Viol> {
	c.eval();
	let res = guard("verify_rr_stream", || verify_rr_stream(rrs))?;
	let v = match res { Err(e) => { c.count("verifications_rejected"); return Ok(Err(e)) }, Ok(v) => v };
	c.count("verifications_accepted");
	for rr in v.verified_rrs.iter() {
		ensure!(rrs.contains(rr), "verified a record that was not in the input: {:?}", rr);
		ensure!(matches!(rr, RR::A(_) | RR::AAAA(_) | RR::NS(_) | RR::Txt(_) | RR::TLSA(_) | RR::CName(_) | RR::DName(_)),
			"verified a record that is not data: {}", Rec::from_lib(rr));
	}
	let recs: Vec<Rec> = v.verified_rrs.iter().map(|r| Rec::from_lib(r)).collect();
	let set: BTreeSet<&Rec> = recs.iter().collect();
	ensure!(set.len() == recs.len(), "a record was returned more than once:\n{}", show(&recs));
	ensure!(v.valid_from < v.expires, "accepted although valid_from {} is not before expires {}", v.valid_from, v.expires);
	c.add("records_verified", recs.len() as u64);
	Ok(Ok(Verdict { recs, from: v.valid_from, exp: v.expires, ttl: v.max_cache_ttl }))
}

/// Everything verified must be true, and whole
pub fn judge(c: &mut Case, w: &World, v: &Verdict) -> R {
	let set = v.set();
	for r in v.recs.iter() {
		if let Err(why) = w.legit(r) { viol!("verified {}, but {}", r, why); }
		if let Some(all) = w.whole_set(r) {
			for x in all { ensure!(set.contains(&x), "verified {} without {}, which is part of the same set", r, x); }
		}
		c.count("records_judged_authentic");
	}
	Ok(())
}

pub fn fp(recs: &[Rec]) -> u64 { let mut h = 0u64; for r in recs { h = h.rotate_left(5) ^ fnv(&r.wire(0)); } h }

pub fn pick_answers(rng: &mut Rng, w: &World, n: usize) -> Vec<(Nm, u16, Answer)> {
	let mut o: Vec<(Nm, u16, Answer)> = Vec::new();
	let mut tries = 0;
	while o.len() < n && tries < n * 12 {
		tries += 1;
		let (name, ty) = if rng.chance(1, 2) {
			// straight at a set
			let z = rng.pick(&w.zones);
			if z.sets.is_empty() { continue; }
			let k: Vec<&(Nm, u16)> = z.sets.keys().collect();
			let (n, t) = (*rng.pick(&k)).clone();
			if n.is_wild() && rng.chance(5, 6) {
				let mut m = n.parent();
				for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) { if m.text_len() < 180 { m = m.child(*rng.pick(&LABELS)); } }
				(m, if matches!(t, CNAME | DNAME) { TXT } else { t })
			} else { (n, if matches!(t, CNAME | DNAME) && rng.chance(1, 2) { TXT } else { t }) }
		} else {
			(w.interesting_names(rng, 1).pop().unwrap(), *rng.pick(&[TXT, TXT, A, AAAA, TLSA]))
		};
		if o.iter().any(|(n, t, _)| *n == name && *t == ty) { continue; }
		if let Some(a) = w.answer(&name, ty) { o.push((name, ty, a)); }
	}
	o
}

/// Uses that the library documents or is known not to accept
pub fn usable(a: &Answer) -> bool {
	a.uses.iter().all(|u| !u.optout && !(u.wrap && u.denial.iter().any(|d| d.ty == NSEC)))
}

// ---------------------------------------------------------------- C01

/// One change that somebody without keys can make to a proof
pub fn mutate(rng: &mut Rng, w: &World, p: &mut Vec<Rec>) -> &'static str {
	if p.is_empty() { return "none"; }
	let i = rng.below(p.len());
	let sigs: Vec<usize> = (0..p.len()).filter(|i| p[*i].ty() == RRSIG).collect();
	match rng.below(20) {
		0 => { p.remove(i); "drop" },
		1 => { let r = p[i].clone(); let mut r2 = r.clone(); tweak(rng, w, &mut r2); p.push(r2); "add a changed copy" },
		2 | 3 | 4 => { tweak(rng, w, &mut p[i]); "change data" },
		5 => { p[i].name = nearby(rng, w, &p[i].name); "rename one" },
		6 | 7 => {
			// move a whole signed set to another name
			let (n, t) = (p[i].name.clone(), match &p[i].rd { RD::RRSig(s) => s.ty, o => o.ty() });
			let to = nearby(rng, w, &n);
			for r in p.iter_mut() { if r.name == n && match &r.rd { RD::RRSig(s) => s.ty == t, o => o.ty() == t } { r.name = to.clone(); } }
			"move a set"
		},
		8 => { let j = rng.below(p.len()); let a = p[i].rd.clone(); p[i].rd = p[j].rd.clone(); p[j].rd = a; "swap data" },
		9 | 10 | 11 if !sigs.is_empty() => {
			let i = *rng.pick(&sigs);
			let names: Vec<Nm> = w.zones.iter().map(|z| z.apex.clone()).collect();
			if let RD::RRSig(s) = &mut p[i].rd {
				match rng.below(9) {
					0 => s.ty = *rng.pick(&SUPPORTED),
					1 => s.alg = *rng.pick(&[8, 10, 13, 14, 15, 5, 16]),
					2 => s.labels = *rng.pick(&[0, 1, s.labels.wrapping_sub(1), s.labels.wrapping_add(1), 254, 255]),
					3 => s.ttl ^= 1 << rng.below(32),
					4 => s.exp = s.exp.wrapping_add(1 + rng.below(1000) as u32),
					5 => s.inc = s.inc.wrapping_sub(1 + rng.below(1000) as u32),
					6 => s.tag ^= 1 << rng.below(16),
					7 => s.signer = rng.pick(&names).clone(),
					_ => { if s.sig.is_empty() || rng.chance(1, 5) { s.sig.push(0) } else if rng.chance(1, 5) { s.sig.pop(); } else { let k = rng.below(s.sig.len()); s.sig[k] ^= 1 << rng.below(8) } },
				}
			}
			"change a signature"
		},
		12 if !sigs.is_empty() => { let mut r = p[*rng.pick(&sigs)].clone(); r.name = nearby(rng, w, &r.name); p.push(r); "copy a signature elsewhere" },
		13 if sigs.len() > 1 => {
			let (a, b) = (*rng.pick(&sigs), *rng.pick(&sigs));
			let s = if let RD::RRSig(s) = &p[b].rd { s.sig.clone() } else { Vec::new() };
			if let RD::RRSig(t) = &mut p[a].rd { t.sig = s; }
			"transplant a signature"
		},
		14 => {
			// same octets under another type
			let t = p[i].clone();
			let to = match &t.rd {
				RD::CName(n) => RD::DName(n.clone()), RD::DName(n) => RD::CName(n.clone()), RD::NS(n) => RD::CName(n.clone()),
				o => { let d = o.rdata(); RD::Txt(d[d.len().min(1)..].to_vec()) },
			};
			let (old, new) = (t.ty(), to.ty());
			p[i].rd = to;
			for r in p.iter_mut() { if r.name == t.name { if let RD::RRSig(s) = &mut r.rd { if s.ty == old { s.ty = new } } } }
			"change the type"
		},
		15 => {
			let n = p[i].name.clone();
			let ty = *rng.pick(&[TXT, A, CNAME, DNAME, NS, AAAA, TLSA]);
			let rd = gen_rd(rng, ty, w);
			p.push(Rec::new(&n, rd));
			"add an unsigned record"
		},
		16 => {
			let n = p[i].name.clone();
			let ty = match &p[i].rd { RD::RRSig(s) => s.ty, o => o.ty() };
			if matches!(ty, DS | DNSKEY | NSEC | NSEC3 | RRSIG) { p.remove(i); return "drop" }
			let rd = gen_rd(rng, ty, w);
			p.push(Rec::new(&n, rd));
			"add to a set"
		},
		17 => {
			// all signatures of one signer gone
			let s = sigs.first().and_then(|_| if let RD::RRSig(s) = &p[*rng.pick(&sigs)].rd { Some(s.signer.clone()) } else { None });
			if let Some(s) = s { p.retain(|r| !matches!(&r.rd, RD::RRSig(x) if x.signer == s && x.ty != DNSKEY && x.ty != DS)); }
			"drop signatures"
		},
		18 => { let z = rng.pick(&w.zones); let n = z.apex.clone(); p.retain(|r| !(r.name == n && (r.ty() == DS || matches!(&r.rd, RD::RRSig(s) if s.ty == DS)))); "drop a delegation" },
		_ => { let r = p[i].clone(); p.push(r); "duplicate" },
	}
}
fn nearby(rng: &mut Rng, w: &World, n: &Nm) -> Nm {
	match rng.below(5) {
		0 if n.n() > 0 => n.parent(),
		1 if n.text_len() < 180 => n.child(*rng.pick(&LABELS)),
		2 if n.n() > 0 => n.parent().child(*rng.pick(&LABELS)),
		3 if n.n() > 0 && n.0[0].len() < 60 => { let mut m = n.clone(); m.0[0].insert(0, b'x'); m },
		_ => w.interesting_names(rng, 1).pop().unwrap(),
	}
}
fn tweak(rng: &mut Rng, w: &World, r: &mut Rec) {
	match &mut r.rd {
		RD::A(a) => a[rng.below(4)] ^= 1 << rng.below(8),
		RD::AAAA(a) => a[rng.below(16)] ^= 1 << rng.below(8),
		RD::NS(n) | RD::CName(n) | RD::DName(n) => { let m = nearby(rng, w, n); *n = m },
		RD::Txt(d) => { if d.is_empty() || rng.chance(1, 4) { d.push(b'x') } else { let k = rng.below(d.len()); d[k] ^= 1 } },
		RD::Tlsa(a, b, c, d) => match rng.below(4) { 0 => *a ^= 1, 1 => *b ^= 1, 2 => *c ^= 1, _ => d[0] ^= 1 },
		RD::DnsKey { flags, proto, alg, key } => match rng.below(5) {
			0 => *flags ^= *rng.pick(&[1, 0x80, 0x8000]), 1 => *proto ^= 1, 2 => *alg = *rng.pick(&[8, 10, 13, 14, 15]),
			_ => { let k = rng.below(key.len()); key[k] ^= 1 << rng.below(8) },
		},
		RD::DS { tag, alg, dt, digest } => match rng.below(5) {
			0 => *tag ^= 1, 1 => *alg ^= 1, 2 => *dt = *rng.pick(&[1, 2, 4, 0]), 3 => { digest.pop(); },
			_ => { let k = rng.below(digest.len().max(1)); if let Some(b) = digest.get_mut(k) { *b ^= 1 } },
		},
		RD::RRSig(s) => { let k = rng.below(s.sig.len().max(1)); if let Some(b) = s.sig.get_mut(k) { *b ^= 1 << rng.below(8) } },
		RD::NSec { next, types } => { if rng.chance(1, 2) { let m = nearby(rng, w, next); *next = m } else { types.remove(&TXT); types.insert(A); } },
		RD::NSec3 { flags, iter, salt, next, types, .. } => match rng.below(5) {
			0 => *flags ^= 1, 1 => *iter ^= 1, 2 => salt.push(1), 3 => { let k = rng.below(next.len().max(1)); if let Some(b) = next.get_mut(k) { *b ^= 0x80 } },
			_ => { types.clear(); },
		},
	}
}

fn c01_mutate(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let w = World::gen(&mut rng, &Cfg::fast());
	let k = rng.range(1, 3);
	let answers = pick_answers(&mut rng, &w, k);
	if answers.is_empty() { return Ok(()); }
	let base = w.proof(&answers.iter().map(|a| &a.2).collect::<Vec<_>>());
	for _ in 0..12 {
		let mut p = base.clone();
		let mut how = Vec::new();
		for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) { how.push(mutate(&mut rng, &w, &mut p)); }
		rng.shuffle(&mut p);
		c.reset_artifacts();
		c.artifact("changes", format!("{:?}", how));
		c.artifact("proof", show(&p));
		c.nontrivial(fp(&p));
		for h in how.iter() { c.count(&format!("changed: {}", h)); }
		if let Ok(v) = verify(c, &w, &p)? { judge(c, &w, &v)?; c.count("changed_proofs_still_accepted"); }
	}
	c.sample(|| format!("changed proof of {} records for {:?}", base.len(), answers.iter().map(|a| a.0.text()).collect::<Vec<_>>()));
	Ok(())
}

pub fn forge(key: &Key, signer: &Nm, owner: &Nm, ty: u16, rds: Vec<RD>) -> Vec<Rec> {
	let s = make_sig(key, signer, owner, &rds, ty, 300, NOW - 100, NOW + 100_000);
	let mut o: Vec<Rec> = rds.into_iter().map(|rd| Rec::new(owner, rd)).collect();
	o.push(Rec::new(owner, RD::RRSig(s)));
	o
}
/// A copy of the key whose tag is the one wanted, by way of its unused flag bits
pub fn with_tag(mut k: Key, tag: u16, seed: u64) -> Key {
	for i in 0..200u64 {
		for hi in 0..=255u16 { for lo in [0u16, 1, 2, 4, 128, 129] {
			k.flags = (hi << 8 | 0x100) & 0xff00 | lo;
			let t = k.tag();
			let d = tag.wrapping_sub(t);
			if d < 256 { let f = k.flags.wrapping_add(d); let o = k.flags; k.flags = f; if k.tag() == tag && f & 0x100 != 0 { return k; } k.flags = o; }
		} }
		k = Key::ed25519(seed.wrapping_add(i + 1));
	}
	k
}

/// Somebody who owns a delegated zone attacks names elsewhere
fn c01_attack(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut cfg = Cfg::fast();
	cfg.zones = (3, 6);
	cfg.attacker = 30;
	let mut w = World::gen(&mut rng, &cfg);
	if !w.zones.iter().any(|z| z.attacker) {
		let i = w.zones.len() - 1;
		w.zones[i].attacker = true;
	}
	let evil: Vec<usize> = (0..w.zones.len()).filter(|i| w.zones[*i].attacker).collect();
	let e = *rng.pick(&evil);
	let ez = w.zones[e].apex.clone();
	// A key of the attacker's that the zone really publishes
	let ekey = w.zones[e].keys[w.zones[e].zone_signers[0]].clone();
	if !alg_supported(ekey.alg) { return Ok(()); }
	// There are only a few keys of some algorithms; the attacker must not happen to have somebody else's
	for i in evil.iter() { for k in w.zones[*i].keys.iter() {
		if w.zones.iter().any(|z| !z.attacker && z.keys.iter().any(|h| h.pubkey == k.pubkey)) { return Ok(()); }
	} }
	let outside = |n: &Nm| !evil.iter().any(|i| n.under_eq(&w.zones[*i].apex));
	let honest: Vec<usize> = (0..w.zones.len()).filter(|i| outside(&w.zones[*i].apex)).collect();
	let chain: Vec<Rec> = w.chain_sets(e).iter().flat_map(|s| s.recs()).collect();
	let answers = pick_answers(&mut rng, &w, 1);
	for round in 0..14 {
		let lies = vec![RD::Txt(b"forged".to_vec())];
		let v = *rng.pick(&honest);
		let vz = w.zones[v].apex.clone();
		let own = Key::ed25519(rng.next() | 1 << 63);
		// The name to lie about
		let mut victim = match rng.below(5) {
			0 | 1 if ez.n() > 0 && ez.0[0].len() < 58 => { let mut m = ez.clone(); let mut f = rng.pick(&[&b"not"[..], b"a", b"-", b"x-"]).to_vec(); f.extend(&m.0[0]); m.0[0] = f; m },
			2 if ez.n() > 1 => ez.parent(),
			3 => vz.child(*rng.pick(&LABELS)),
			_ => w.interesting_names(&mut rng, 1).pop().unwrap(),
		};
		if rng.chance(1, 3) && victim.text_len() < 180 { victim = victim.child("www"); }
		if !outside(&victim) { continue; }
		let vchain: Vec<Rec> = w.chain_sets(v).iter().flat_map(|s| s.recs()).collect();
		let mut p = chain.clone();
		let add = |p: &mut Vec<Rec>, r: Vec<Rec>| for x in r { if !p.contains(&x) { p.push(x); } };
		let how = match rng.below(17) {
			16 => {
				// a zone below the attacker's, all correct, has a key which looks like one of an honest zone's; with that, records of the latter
				add(&mut p, vchain);
				let Some(good) = w.zones[v].zone_signers.iter().chain(w.zones[v].key_signers.iter()).map(|k| &w.zones[v].keys[*k]).find(|k| k.alg == own.alg) else { continue };
				let k = with_tag(own.clone(), good.tag(), rng.next());
				if ez.text_len() > 200 { continue; }
				let to = ez.child("twin");
				add(&mut p, forge(&ekey, &ez, &to, DS, vec![k.ds(&to, 2)]));
				add(&mut p, forge(&k, &to, &to, DNSKEY, vec![k.rd()]));
				add(&mut p, forge(&k, &vz, &vz.child("lie"), TXT, lies));
				"a key with the tag of another zone's"
			},
			14 => {
				// an honest zone delegates the name of a wildcard to the attacker, who then answers for names beside it
				add(&mut p, vchain);
				let k = own.clone().ksk();
				let signer = w.zones[v].keys[w.zones[v].zone_signers[0]].clone();
				if !alg_supported(signer.alg) { continue; }
				let below: Vec<Nm> = w.zones[v].children.iter().chain(w.zones[v].exists.iter()).filter(|n| n.under(&vz)).cloned().collect();
				let to = if victim.under(&vz) && rng.chance(1, 3) { victim.clone() } else if !below.is_empty() && rng.chance(2, 3) { rng.pick(&below).clone() } else { vz.child(*rng.pick(&LABELS)) };
				let up = { let n = rng.range(0, to.n() - vz.n() - 1); to.last(vz.n() + n) };
				if to.is_wild() || to.text_len() > 200 || !outside(&to) { continue; }
				let mut f = forge(&signer, &vz, &up.child("*"), DS, vec![k.ds(&to, 2)]);
				for r in f.iter_mut() { r.name = to.clone(); }
				p.retain(|r| !(r.name == to && (matches!(r.ty(), DS | DNSKEY) || matches!(&r.rd, RD::RRSig(s) if matches!(s.ty, DS | DNSKEY)))));
				add(&mut p, f);
				add(&mut p, forge(&k, &to, &to, DNSKEY, vec![k.rd()]));
				add(&mut p, forge(&k, &to, &to.child("www"), TXT, lies));
				if rng.chance(1, 2) { for (o, rd) in w.zones[v].chain.iter() { add(&mut p, w.set(v, o, rd.ty()).recs()); } }
				"delegation of a wildcard used elsewhere"
			},
			0 | 1 => { add(&mut p, forge(&ekey, &ez, &victim, TXT, lies)); "data outside the zone, signed by the zone" },
			2 => {
				// a key of the attacker's slipped into an honest key set
				add(&mut p, vchain);
				let mut r = ekey.clone(); r.flags |= 256;
				p.push(Rec::new(&vz, r.rd()));
				add(&mut p, forge(&r, &vz, &vz.child("lie"), TXT, lies));
				"key added to an honest key set"
			},
			3 | 4 => {
				let to = if victim.n() > 0 { victim.clone() } else { vz.child("x") };
				let k = own.clone().ksk();
				add(&mut p, forge(&ekey, &ez, &to, DS, vec![k.ds(&to, 2)]));
				add(&mut p, forge(&k, &to, &to, DNSKEY, vec![k.rd()]));
				add(&mut p, forge(&k, &to, &to.child("www"), TXT, lies));
				"delegation of a foreign name"
			},
			5 if v != 0 => {
				// the delegation of an honest zone replaced or extended
				add(&mut p, vchain);
				let k = own.clone().ksk();
				let replace = rng.chance(1, 2);
				if replace { p.retain(|r| !(r.name == vz && (r.ty() == DNSKEY || r.ty() == DS || matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY)))); }
				p.push(Rec::new(&vz, k.ds(&vz, 2)));
				add(&mut p, forge(&k, &vz, &vz, DNSKEY, vec![k.rd()]));
				add(&mut p, forge(&k, &vz, &vz.child("lie"), TXT, lies));
				"unsigned delegation added"
			},
			6 => {
				// a key set signed by a key that no delegation names, sharing the tag of the one that is
				let good = w.zones[v].keys[w.zones[v].key_signers[0]].clone();
				let k = if rng.chance(2, 3) { with_tag(own.clone(), good.tag(), rng.next()) } else { own.clone().ksk() };
				add(&mut p, vchain);
				p.retain(|r| !(r.name == vz && matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY)));
				let mut rds: Vec<RD> = p.iter().filter(|r| r.name == vz && r.ty() == DNSKEY).map(|r| r.rd.clone()).collect();
				rds.push(k.rd());
				p.push(Rec::new(&vz, k.rd()));
				p.push(Rec::new(&vz, RD::RRSig(make_sig(&k, &vz, &vz, &rds, DNSKEY, 300, NOW - 100, NOW + 1000))));
				add(&mut p, forge(&k, &vz, &vz.child("lie"), TXT, lies));
				"key set signed by an unauthenticated key"
			},
			7 => {
				// the attacker's wildcard, used outside
				let wild = ez.child("*");
				let mut f = forge(&ekey, &ez, &wild, TXT, lies);
				for r in f.iter_mut() { r.name = victim.clone(); }
				add(&mut p, f);
				"wildcard used outside its zone"
			},
			8 => {
				// data signed with the attacker's key in the name of the victim zone, nothing else
				add(&mut p, vchain);
				let good = w.zones[v].keys[w.zones[v].zone_signers[0]].clone();
				let mut k = ekey.clone();
				if rng.chance(1, 2) { k = with_tag(own.clone(), good.tag(), rng.next()); }
				let mut f = forge(&k, &vz, &vz.child("lie"), TXT, lies);
				// labelled as the zone's own key, or plainly as the attacker's, whose key set is in the proof, too
				if rng.chance(1, 2) { if let Some(Rec { rd: RD::RRSig(s), .. }) = f.last_mut() { s.tag = good.tag(); s.alg = good.alg; } }
				add(&mut p, f);
				"signature with the wrong key"
			},
			9 => {
				// a parallel root
				let k = own.clone().ksk();
				let k = if rng.chance(1, 2) { with_tag(k, w.zones[0].keys[w.zones[0].key_signers[0]].tag(), rng.next()) } else { k };
				let root = Nm::root();
				p.clear();
				if rng.chance(1, 2) { p.extend(w.chain_sets(0).iter().flat_map(|s| s.recs())); }
				add(&mut p, forge(&k, &root, &root, DNSKEY, vec![k.rd()]));
				add(&mut p, forge(&k, &root, &Nm::new("lie."), TXT, lies));
				"another root"
			},
			10 => {
				// records moved into the set of an attacker-signed one under another owner
				let mut f = forge(&ekey, &ez, &ez.child("mine"), TXT, lies);
				for r in f.iter_mut() { if r.ty() == TXT || rng.chance(1, 2) { r.name = victim.clone(); } }
				add(&mut p, f);
				"own records renamed"
			},
			11 => {
				// a signature over types it must not cover, or nothing
				let t = *rng.pick(&[DS, DNSKEY, RRSIG, NSEC, NSEC3, TXT]);
				let s = make_sig(&ekey, &ez, &ez.child("x"), &[], t, 300, NOW - 100, NOW + 1000);
				p.push(Rec::new(&ez.child("x"), RD::RRSig(s)));
				"signature over nothing"
			},
			12 if v != 0 => {
				// an honest zone's keys replaced, vouched for by a delegation record with another owner: unsigned, or signed
				// by the attacker at one of their own names
				add(&mut p, vchain);
				let k = own.clone().ksk();
				p.retain(|r| !(r.name == vz && (r.ty() == DNSKEY || matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY))));
				let ds = k.ds(&vz, *rng.pick(&[2, 2, 1]));
				match rng.below(4) {
					0 => { let at = rng.pick(&[Nm::root(), Nm::new("nowhere."), ez.clone(), victim.clone(), vz.child("x")]).clone(); p.push(Rec::new(&at, ds)); },
					1 => { let at = ez.child(*rng.pick(&LABELS)); add(&mut p, forge(&ekey, &ez, &at, DS, vec![ds])); },
					2 => { let at = vz.parent().child(*rng.pick(&LABELS)); p.push(Rec::new(&at, ds)); },
					_ => { let o = rng.pick(&honest); let at = w.zones[*o].apex.clone(); p.push(Rec::new(&at, ds)); },
				}
				add(&mut p, forge(&k, &vz, &vz, DNSKEY, vec![k.rd()]));
				add(&mut p, forge(&k, &vz, &vz.child("lie"), TXT, lies));
				"delegation with another owner"
			},
			13 => {
				// the data or key set of one honest zone under the keys of another: signatures relabelled
				add(&mut p, vchain);
				let other = *rng.pick(&honest);
				let oz = w.zones[other].apex.clone();
				add(&mut p, w.chain_sets(other).iter().flat_map(|s| s.recs()).collect());
				let k = w.zones[other].keys[w.zones[other].zone_signers[0]].clone();
				if oz == vz || !alg_supported(k.alg) || w.zones[v].keys.iter().any(|x| x.pubkey == k.pubkey) { continue; }
				// no zone really does that (a parent could, which nobody could tell from an answer of its own)
				let at = if rng.chance(1, 2) { vz.child("lie") } else { vz.clone() };
				add(&mut p, forge(&k, if at.under_eq(&oz) || rng.chance(1, 2) { &vz } else { &oz }, &at, TXT, lies));
				"signed by another honest zone's key"
			},
			_ => {
				// a delegation to the attacker from an honest zone's signature for another child
				let other = *rng.pick(&honest);
				if other == 0 { continue; }
				let oz = w.zones[other].apex.clone();
				add(&mut p, vchain);
				for r in w.chain_sets(other).iter().flat_map(|s| s.recs()) { if !p.contains(&r) { p.push(r); } }
				let k = own.clone().ksk();
				p.retain(|r| !(r.name == oz && r.ty() == DS));
				p.push(Rec::new(&oz, k.ds(&oz, 2)));
				p.retain(|r| !(r.name == oz && (r.ty() == DNSKEY || matches!(&r.rd, RD::RRSig(s) if s.ty == DNSKEY))));
				add(&mut p, forge(&k, &oz, &oz, DNSKEY, vec![k.rd()]));
				add(&mut p, forge(&k, &oz, &oz.child("lie"), TXT, lies));
				"delegation replaced under the old signature"
			},
		};
		if rng.chance(1, 2) { for (_, _, a) in answers.iter() { for r in w.proof(&[a]) { if !p.iter().any(|x| x.name == r.name && x.ty() == r.ty() && x.ty() != RRSIG) && !p.contains(&r) { p.push(r); } } } }
		rng.shuffle(&mut p);
		c.reset_artifacts();
		c.artifact("attack", format!("{} by {} on {} (round {})", how, ez, victim, round));
		c.artifact("attacker zones", format!("{:?}", evil.iter().map(|i| w.zones[*i].apex.text()).collect::<Vec<_>>()));
		c.artifact("proof", show(&p));
		c.nontrivial(fp(&p));
		c.count(&format!("attack: {}", how));
		if let Ok(v) = verify(c, &w, &p)? { judge(c, &w, &v)?; c.count("attacks_leaving_an_acceptable_rest"); }
	}
	Ok(())
}

/// Two signed versions of one set: neither may be mixed with the other
fn c01_mix(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let w = World::gen(&mut rng, &Cfg { wildcard: 20, ..Cfg::fast() });
	let Some((zi, (owner, ty))) = (0..w.zones.len()).flat_map(|i| w.zones[i].sets.keys().map(move |k| (i, k.clone()))).nth(rng.below(6)) else { return Ok(()) };
	if owner.is_wild() || matches!(ty, CNAME | DNAME) { return Ok(()); }
	let new = w.set(zi, &owner, ty);
	let mut old_rds: Vec<RD> = new.rds.iter().filter(|_| rng.chance(1, 2)).cloned().collect();
	for _ in 0..rng.range(1, 3) { let rd = gen_rd(&mut rng, ty, &w); if !old_rds.contains(&rd) && !new.rds.contains(&rd) { old_rds.push(rd); } }
	let old = w.sign(zi, &owner, ty, old_rds.clone());
	let all: BTreeSet<RD> = new.rds.iter().chain(old_rds.iter()).cloned().collect();
	let chain: Vec<Rec> = w.chain_sets(zi).iter().flat_map(|s| s.recs()).collect();
	for _ in 0..10 {
		let mut p = chain.clone();
		let rds: BTreeSet<RD> = all.iter().filter(|_| rng.chance(2, 3)).cloned().collect();
		for rd in rds.iter() { p.push(Rec::new(&owner, rd.clone())); }
		let which = rng.below(3);
		if which != 0 { for s in old.sigs.iter() { p.push(Rec::new(&owner, RD::RRSig(s.clone()))); } }
		if which != 1 { for s in new.sigs.iter() { p.push(Rec::new(&owner, RD::RRSig(s.clone()))); } }
		rng.shuffle(&mut p);
		c.reset_artifacts();
		c.artifact("proof", show(&p));
		c.nontrivial(fp(&p));
		if let Ok(v) = verify(c, &w, &p)? {
			let got: BTreeSet<RD> = v.recs.iter().filter(|r| r.name == owner && r.ty() == ty).map(|r| r.rd.clone()).collect();
			let (n, o): (BTreeSet<RD>, BTreeSet<RD>) = (new.rds.iter().cloned().collect(), old_rds.iter().cloned().collect());
			ensure!(got == n || got == o, "verified {} records at {} which were never signed together", got.len(), owner);
			c.count("one_version_verified_whole");
		} else { c.count("mixtures_rejected"); }
	}
	Ok(())
}

// ---------------------------------------------------------------- C02

/// Every wildcard at every kind of name with all the denial records there are
fn c02_replay(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut cfg = Cfg { wildcard: 110, optout: 25, insecure: 40, cname: 10, ..Cfg::fast() };
	if rng.chance(1, 3) { cfg.attacker = 30; }
	match rng.below(6) { 0 | 1 => cfg.nsec3 = 0, 2 => { cfg.nsec3 = 80; cfg.odd_nsec3 = 60; }, _ => {} }
	let w = World::gen(&mut rng, &cfg);
	for z in w.zones.iter() { if z.odd_nsec3 != 0 { c.count("zones_with_unknown_nsec3_hashes"); } }
	c02_world(c, &w, &mut rng, None)
}
fn c02_world(c: &mut Case, w: &World, rng: &mut Rng, extra: Option<&[Rec]>) -> R {
	// All key sets, delegations and denial records of the whole world
	let mut base = Vec::new();
	for zi in 0..w.zones.len() {
		let z = &w.zones[zi];
		base.extend(w.set(zi, &z.apex, DNSKEY).recs());
		if let Some(p) = z.parent { base.extend(w.set(p, &z.apex, DS).recs()); }
	}
	let mut denials: Vec<(usize, Vec<Rec>)> = Vec::new();
	for zi in 0..w.zones.len() { for (o, rd) in w.zones[zi].chain.iter() { denials.push((zi, w.set(zi, o, rd.ty()).recs())); } }
	// The wildcard's own denial record moved to another name, which a wildcard signature would allow. The labels sort below
	// the asterisk, so it would cover more there.
	let (moving, mut moved) = (rng.chance(1, 6), false);
	for (zi, d) in denials.iter_mut() {
		let n = d[0].name.clone();
		if !moving || d[0].ty() != NSEC || !n.is_wild() || w.zones[*zi].attacker || rng.chance(1, 3) { continue; }
		let to = n.parent().child(*rng.pick(&["!", "#", "$", "'", "a!b", "-"]));
		if w.zones.iter().any(|z| z.chain.iter().any(|(o, _)| *o == to)) && rng.chance(1, 2) { continue; }
		for r in d.iter_mut() { r.name = to.clone(); }
		moved = true;
		c.count("wildcard_denial_records_moved");
	}
	// The attackers' own denial records: whatever would suit them
	let mut forged: Vec<Vec<Rec>> = Vec::new();
	for zi in 0..w.zones.len() {
		let z = &w.zones[zi];
		if !z.attacker { continue; }
		let k = &z.keys[z.zone_signers[0]];
		if !alg_supported(k.alg) { continue; }
		let far = gen_name(rng, 3);
		forged.push(forge(k, &z.apex, &z.apex.child(*rng.pick(&LABELS)), NSEC, vec![RD::NSec { next: if rng.chance(1, 2) { Nm::new("~~~~.") } else { far }, types: [RRSIG, NSEC].into() }]));
		let h = vec![0u8; 20];
		forged.push(forge(k, &z.apex, &z.apex.child(&b32(&h)), NSEC3, vec![RD::NSec3 { algo: 1, flags: 0, iter: 0, salt: vec![], next: vec![0xff; 20], types: Types::new() }]));
		if rng.chance(1, 2) { forged.push(forge(k, &z.apex, &z.apex.child("sub").child(&b32(&h)), NSEC3, vec![RD::NSec3 { algo: 1, flags: 0, iter: 0, salt: vec![], next: vec![0xff; 20], types: Types::new() }])); }
	}
	for zi in 0..w.zones.len() {
		let z = &w.zones[zi];
		for ((owner, ty), rds) in z.sets.iter() {
			if !owner.is_wild() { continue; }
			let ce = owner.parent();
			let set = w.set(zi, owner, *ty);
			let mut names: BTreeSet<Nm> = BTreeSet::new();
			// everything that exists below the wildcard's parent anywhere, and below that, and names that do not exist
			let all: Vec<Nm> = w.zones.iter().flat_map(|z| z.exists.iter()).filter(|n| n.under(&ce)).cloned().collect();
			for n in all.iter() {
				if rng.chance(2, 3) { names.insert(n.clone()); }
				if n.text_len() < 180 && rng.chance(1, 2) { names.insert(n.child(*rng.pick(&LABELS))); }
				if rng.chance(1, 6) && n.text_len() < 180 { names.insert(n.child("b").child("a")); }
			}
			for _ in 0..4 { if ce.text_len() < 180 { let n = ce.child(*rng.pick(&LABELS)); names.insert(n.clone()); if rng.chance(1, 3) { names.insert(n.child(*rng.pick(&LABELS))); } } }
			names.remove(owner);
			let mut names: Vec<Nm> = names.into_iter().collect();
			rng.shuffle(&mut names);
			names.truncate(14);
			for name in names {
				let mut p = base.clone();
				p.extend(set.recs_at(&name));
				let mode = rng.below(6);
				// Two zones have different NSEC records at the cut between them, of which a proof may hold either or both
				let mut kept: BTreeMap<Nm, usize> = BTreeMap::new();
				if rng.chance(1, 3) {
					let mut order: Vec<usize> = (0..denials.len()).collect();
					rng.shuffle(&mut order);
					for i in order { kept.entry(denials[i].1[0].name.clone()).or_insert(denials[i].0); }
				}
				if mode == 3 { kept.clear(); }
				let denials: Vec<(usize, Vec<Rec>)> = denials.iter().filter(|(z, d)| kept.get(&d[0].name).map(|k| k == z).unwrap_or(true)).cloned().collect();
				match mode {
					0..=2 => for (_, d) in denials.iter() { p.extend(d.iter().cloned()); },
					3 => for (_, d) in denials.iter().filter(|d| d.0 == zi) { p.extend(d.iter().cloned()); },
					4 => for (_, d) in denials.iter().filter(|d| d.0 != zi) { p.extend(d.iter().cloned()); },
					_ => for (_, d) in denials.iter() { if rng.chance(1, 2) { p.extend(d.iter().cloned()); } },
				}
				if rng.chance(1, 2) { for f in forged.iter() { p.extend(f.iter().cloned()); } }
				if let Some(x) = extra { p.extend_from_slice(x); }
				rng.shuffle(&mut p);
				let truth = w.legit(&Rec::new(&name, rds[0].clone()));
				c.reset_artifacts();
				c.artifact("wildcard", format!("{} type {} of zone {}, used at {}; truth: {:?}", owner, ty, z.apex, name, truth));
				c.artifact("proof", show(&p));
				c.nontrivial(fnv(format!("{}{}{}{}", owner, name, ty, fp(&base)).as_bytes()));
				let by_attacker = w.zones.iter().any(|z| z.attacker && name.under_eq(&z.apex));
				let res = verify(c, w, &p)?;
				let there = match &res { Ok(v) => v.recs.iter().any(|r| r.name == name && r.ty() == *ty), Err(_) => false };
				if there {
					c.count("expansions_accepted");
					// A zone holding the name may have been the attacker's, but this signature was not made by it
					let strict = !z.attacker && w.zones.iter().any(|a| a.attacker && a.apex.under(&z.apex) && name.under_eq(&a.apex));
					if strict { viol!("wildcard {} of zone {} was accepted at {}, a name of another zone", owner, z.apex, name); }
					if let Err(why) = &truth { viol!("wildcard {} was accepted at {}, but {}", owner, name, why); }
					let own: Vec<&(usize, Vec<Rec>)> = denials.iter().filter(|d| d.0 == zi && d.1.iter().all(|r| p.contains(r))).collect();
					if mode == 4 && own.is_empty() && !z.attacker { viol!("wildcard {} was accepted at {} without any denial from its zone", owner, name); }
					if !z.attacker {
						let nc = name.last(ce.n() + 1);
						if let Some((o, t, _, _)) = z.covering(&nc) {
							ensure!(p.iter().any(|r| r.name == o && r.ty() == t), "wildcard {} was accepted at {} without the record that covers {}", owner, name, nc);
						}
					}
				} else {
					c.count(if truth.is_ok() { "expansions_rejected_although_true" } else { "false_expansions_rejected" });
					if truth.is_ok() && !moved && mode == 3 && w.zone_of(&name) == zi && z.closest_encloser(&name) == ce && !z.attacker && !by_attacker && forged.is_empty() {
						let nc = name.last(ce.n() + 1);
						let nsec_wrap = matches!(z.covering(&nc), Some((_, NSEC, true, _)));
						if !nsec_wrap { viol!("wildcard {} at {} was refused although the proof is complete ({:?})", owner, name, res.err()); }
					}
				}
				if let Ok(v) = &res { judge(c, w, v)?; }
			}
		}
	}
	Ok(())
}

/// Several expansions in one proof, of which some lack their denial records
fn c02_multi(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let nsec3 = *rng.pick(&[0, 0, 50, 100]);
	let w = World::gen(&mut rng, &Cfg { wildcard: 180, nsec3, zones: (2, 4), cname: 10, ..Cfg::fast() });
	let mut wilds: Vec<(usize, Nm, u16)> = Vec::new();
	for zi in 0..w.zones.len() { for ((o, t), _) in w.zones[zi].sets.iter() { if o.is_wild() { wilds.push((zi, o.clone(), *t)); } } }
	if wilds.is_empty() { return Ok(()); }
	let mut base = Vec::new();
	for zi in 0..w.zones.len() {
		let z = &w.zones[zi];
		base.extend(w.set(zi, &z.apex, DNSKEY).recs());
		if let Some(p) = z.parent { base.extend(w.set(p, &z.apex, DS).recs()); }
	}
	for _ in 0..6 {
		// mostly below one wildcard, so that the names needing denials sort next to each other
		let main = rng.pick(&wilds).clone();
		let mut uses: Vec<(usize, Nm, u16, Nm, Nm)> = Vec::new(); // zone, wildcard, type, name, next closer name
		for _ in 0..rng.range(2, 5) {
			let (zi, o, t) = if rng.chance(2, 3) { main.clone() } else { rng.pick(&wilds).clone() };
			let ce = o.parent();
			if ce.text_len() > 180 { continue; }
			let mut n = ce.child(*rng.pick(&LABELS));
			if rng.chance(1, 4) { n = n.child(*rng.pick(&LABELS)); }
			let nc = n.last(ce.n() + 1);
			if w.zone_of(&n) != zi || w.zones[zi].exists.contains(&nc) || w.zones[zi].closest_encloser(&n) != ce { continue; }
			if uses.iter().any(|u| u.3 == n) { continue; }
			uses.push((zi, o, t, n, nc));
		}
		if uses.len() < 2 { continue; }
		let mut p = base.clone();
		for (zi, o, t, n, _) in uses.iter() { p.extend(w.set(*zi, o, *t).recs_at(n)); }
		let with: Vec<bool> = { let few = rng.below(3); uses.iter().map(|_| match few { 0 => rng.chance(1, 2), 1 => rng.chance(4, 5), _ => true }).collect() };
		let mut denials: BTreeSet<(Nm, u16, usize)> = BTreeSet::new();
		let mut unprovable = false;
		for (u, with) in uses.iter().zip(with) {
			match w.zones[u.0].covering(&u.4) {
				Some((o, t, wrap, optout)) if with => {
					if optout || (wrap && t == NSEC) { unprovable = true; }
					denials.insert((o, t, u.0));
				},
				_ => {},
			}
		}
		for (o, t, zi) in denials.iter() {
			p.extend(w.set(*zi, o, *t).recs());
			if denials.iter().any(|d| (&d.0, d.1) == (o, *t) && d.2 != *zi) { c.count("both_denial_records_of_a_zone_cut"); }
		}
		// denial records for the other names which, though signed by the zone, prove nothing
		for u in uses.iter() {
			let z = &w.zones[u.0];
			let Denial::Nsec3 { iter, salt, .. } = &z.denial else { continue };
			let Some(key) = z.zone_signers.iter().map(|k| &z.keys[*k]).find(|k| alg_supported(k.alg)) else { continue };
			if !rng.chance(1, 2) { continue; }
			// one with the same parameters, so that they are known
			if let (true, Some((o, rd))) = (rng.chance(1, 2), z.chain.iter().find(|(o, _)| !denials.contains(&(o.clone(), NSEC3, u.0)))) {
				let covers = uses.iter().any(|v| v.0 == u.0 && z.covering(&v.4).map(|c| c.0 == *o).unwrap_or(false));
				if !covers && !p.iter().any(|r| r.name == *o) { p.extend(w.set(u.0, o, rd.ty()).recs()); }
			}
			let h = nsec3_hash(&u.4, salt, *iter);
			let step = |up: bool| { let mut h = h.clone(); for b in h.iter_mut().rev() { *b = if up { b.wrapping_add(1) } else { b.wrapping_sub(1) }; if *b != if up { 0 } else { 255 } { break; } } h };
			let (mut own, mut next) = (step(false), step(true));
			let (mut algo, mut flags, mut iter, mut salt, mut at) = (1, 0, *iter, salt.clone(), z.apex.clone());
			let what = match rng.below(8) {
				0 => { algo = *rng.pick(&[0, 2, 6, 255]); "unknown hash" },
				1 => { flags = *rng.pick(&[1, 2, 3, 0x80, 0xff]); "flags" },
				2 => { let n = rng.range(0, 19); own.truncate(n / 5 * 5); "short hash" },
				3 => { if rng.chance(1, 2) { let n = rng.range(0, 19); next.truncate(n); } else { next.push(rng.byte()); } "odd next hash" },
				4 => { let i = rng.below(8) as u16; iter += 1 + i; "other iterations" },
				5 => { salt.push(rng.byte()); "other salt" },
				6 => { at = z.apex.child("sub"); "below another name" },
				_ => { if rng.chance(1, 2) { own = h.clone(); } else { next = h.clone(); } "at its edge" },
			};
			if own.is_empty() { own = vec![0; 5]; }
			let own = at.child(&b32(&own));
			if p.iter().any(|r| r.name == own) || z.chain.iter().any(|(o, _)| *o == own) { continue; }
			c.count(&format!("denial that proves nothing: {}", what));
			p.extend(forge(key, &z.apex, &own, NSEC3, vec![RD::NSec3 { algo, flags, iter, salt, next, types: Types::new() }]));
			if what == "other iterations" || what == "other salt" { unprovable = true; } // only so many parameters are considered
		}
		rng.shuffle(&mut p);
		let unproven: Vec<&Nm> = uses.iter().filter(|u| match w.zones[u.0].covering(&u.4) { Some((o, t, _, _)) => !denials.contains(&(o, t, u.0)), None => true }).map(|u| &u.3).collect();
		c.reset_artifacts();
		c.artifact("expansions", format!("{:?}", uses.iter().map(|u| (u.1.text(), u.2, u.3.text())).collect::<Vec<_>>()));
		c.artifact("without denial", format!("{:?}", unproven));
		c.artifact("proof", show(&p));
		c.nontrivial(fp(&p));
		match verify(c, &w, &p)? {
			Ok(v) => {
				for n in unproven.iter() { ensure!(!v.recs.iter().any(|r| r.name == **n), "a proof of {} expansions was accepted though the denial for {} is missing", uses.len(), n); }
				judge(c, &w, &v)?;
				for u in uses.iter() { ensure!(v.recs.iter().any(|r| r.name == u.3 && r.ty() == u.2), "{} was left out of a proof that was accepted", u.3); }
				c.count("several_expansions_accepted");
			},
			Err(e) => {
				if unproven.is_empty() && !unprovable { viol!("a proof with {} expansions and all denial records was refused: {:?}", uses.len(), e); }
				c.count(if unproven.len() < uses.len() { "several_expansions_rejected_for_some" } else { "several_expansions_rejected_for_all" });
			},
		}
	}
	Ok(())
}

/// A small zone with a wildcard, an existing sibling, an empty non-terminal and a delegation, in every combination
fn c02_small(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let zone = if rng.chance(1, 6) { Nm::root() } else if rng.chance(1, 3) { Nm::new("zz.") } else { Nm::new("n.zz.") };
	let mut apexes = vec![Nm::root()];
	if zone.n() > 0 { apexes.push(Nm::new("zz.")); }
	if zone.n() == 2 { apexes.push(zone.clone()); }
	let ce = if rng.chance(1, 2) { zone.clone() } else { zone.child(*rng.pick(&["w", "-", "a"])) };
	let child = ce.child(*rng.pick(&["kid", "b", "a-"]));
	let has_child = rng.chance(1, 2);
	if has_child { apexes.push(child.clone()); }
	let nsec3 = rng.chance(1, 2);
	let odd = rng.chance(1, 4);
	let evil = has_child && rng.chance(1, 3);
	let grand = has_child && rng.chance(1, 4);
	if grand { apexes.push(child.child("k2")); }
	let types = [TXT, A, CNAME];
	let wty = *rng.pick(&types);
	let n_exist = rng.below(4);
	let w = World::chain(&mut rng, &apexes, |_, z, rng| {
		let k = Key::ed25519(rng.next() >> 1);
		z.simple_key(k, 2);
		if nsec3 && odd { z.odd_nsec3 = 1 + rng.below(5) as u8; }
		if nsec3 { z.denial = Denial::Nsec3 { iter: rng.below(3) as u16, salt: rng.bytes(2), optout: false }; }
		if z.apex == child { z.attacker = evil; z.sets.insert((z.apex.child("x"), TXT), vec![RD::Txt(b"kid".to_vec())]); if rng.chance(1, 2) { z.sets.insert((z.apex.clone(), TXT), vec![RD::Txt(b"kid".to_vec())]); } }
		if z.apex == zone {
			let rd = match wty { TXT => RD::Txt(b"wild".to_vec()), A => RD::A([1, 2, 3, 4]), _ => RD::CName(Nm::new("zz.")) };
			z.sets.insert((ce.child("*"), wty), vec![rd]);
			for _ in 0..n_exist {
				let mut n = ce.child(*rng.pick(&["a", "o", "a-b", "_", "!", "zzz", "override", "#", "$", "'", ")"]));
				if rng.chance(1, 3) { n = n.child(*rng.pick(&["a", "x", "-"])); }
				if has_child && n.under_eq(&child) { continue; }
				z.sets.insert((n, *rng.pick(&[TXT, A, AAAA])), vec![]);
			}
			for ((_, t), rds) in z.sets.iter_mut() { if rds.is_empty() { rds.push(match *t { TXT => RD::Txt(b"own".to_vec()), A => RD::A([9; 4]), _ => RD::AAAA([7; 16]) }); } }
		}
	});
	c02_world(c, &w, &mut rng, None)
}

// ---------------------------------------------------------------- C03, C06

fn c03_accept(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let cfg = if rng.chance(1, 2) { Cfg::rich() } else { Cfg { wildcard: 90, ..Cfg::rich() } };
	let w = World::gen(&mut rng, &cfg);
	let k = rng.range(1, 4);
	let answers: Vec<_> = pick_answers(&mut rng, &w, k).into_iter().filter(|a| usable(&a.2)).collect();
	if answers.is_empty() { return Ok(()); }
	accept(c, &w, &mut rng, &answers)
}
fn accept(c: &mut Case, w: &World, rng: &mut Rng, answers: &[(Nm, u16, Answer)]) -> R {
	let refs: Vec<&Answer> = answers.iter().map(|a| &a.2).collect();
	let mut p = w.proof(&refs);
	if rng.chance(1, 2) { for a in refs.iter() { for s in a.synth.iter() { if !p.iter().any(|r| r.name == s.name && r.ty() == CNAME) { p.push(s.clone()); } } } }
	// a zone changing its denial parameters has more than one set of denial records, of which some may be of no use here
	let mut others = 0;
	for u in refs.iter().flat_map(|a| a.uses.iter()) {
		if u.denial.is_empty() || u.denial[0].ty != NSEC3 || !rng.chance(1, 2) { continue; }
		let z = &w.zones[u.set.zone];
		let RD::NSec3 { iter, salt, .. } = &u.denial[0].rds[0] else { continue };
		let Some(key) = z.zone_signers.iter().map(|k| &z.keys[*k]).find(|k| alg_supported(k.alg)) else { continue };
		// only so many usable sets of parameters are considered
		let mut other: Option<(u16, Vec<u8>)> = p.iter().find_map(|r| match &r.rd { RD::NSec3 { algo: 1, iter: i, salt: s, .. } if r.name.parent() == z.apex && *i <= 2500 && (i != iter || s != salt) => Some((*i, s.clone())), _ => None });
		for _ in 0..rng.range(1, 5) {
			let (mut i, mut s, mut a, mut own, mut next) = (*iter, salt.clone(), 1, rng.bytes(20), rng.bytes(20));
			match rng.below(5) {
				0 => i = *rng.pick(&[2501, 2502, 10_000, 65_535]),
				1 => { a = *rng.pick(&[0, 2, 3, 255]); if rng.chance(1, 2) { let n = rng.below(4); s = rng.bytes(n); } },
				2 => if rng.chance(1, 2) { let n = *rng.pick(&[15, 25, 30]); own = rng.bytes(n) } else { let n = *rng.pick(&[0, 15, 19, 21, 25]); next = rng.bytes(n) },
				_ => {
					// only so many usable sets of parameters are considered
					let o = other.get_or_insert_with(|| match rng.below(3) { 0 => (*iter, [&salt[..], &[7]].concat()), 1 => (*iter + 1, salt.clone()), _ => (*iter ^ 1, [&[1], &salt[..]].concat()) });
					(i, s) = o.clone();
				},
			}
			p.extend(forge(key, &z.apex, &z.apex.child(&b32(&own)), NSEC3, vec![RD::NSec3 { algo: a, flags: rng.below(2) as u8, iter: i, salt: s, next, types: Types::new() }]));
			others += 1;
		}
	}
	if others > 0 { c.count("proofs with further, unusable denial records"); }
	rng.shuffle(&mut p);
	let want = w.proven(&refs);
	c.reset_artifacts();
	c.artifact("asked", format!("{:?}", answers.iter().map(|a| (a.0.text(), a.1)).collect::<Vec<_>>()));
	c.artifact("anchors", format!("{:?}", w.zones[0].ds));
	c.artifact("proof", show(&p));
	c.nontrivial(fp(&p));
	let v = match verify(c, w, &p)? { Ok(v) => v, Err(e) => viol!("a correctly signed proof for {} was refused: {:?}", answers.iter().map(|a| a.0.text()).collect::<Vec<_>>().join(" "), e) };
	let got = v.set();
	if let Some(m) = want.difference(&got).next() { viol!("proven but not returned: {}", m); }
	if let Some(m) = got.difference(&want).next() { viol!("returned but not part of the proof: {}", m); }
	// and the names asked about resolve to the records published
	set_anchors(w.anchors());
	let rrs: Vec<RR> = p.iter().map(|r| r.lib()).collect();
	let v = verify_rr_stream(&rrs).map_err(|e| format!("the same input verified differently the second time: {:?}", e))?;
	for (name, ty, a) in answers.iter() {
		if *ty == CNAME { continue; } // it would be followed
		let n = name.lib();
		let res = guard("resolve_name", || v.resolve_name(&n))?;
		let got: BTreeSet<Rec> = res.iter().map(|r| Rec::from_lib(r)).collect();
		let t = a.target.as_ref().unwrap();
		let want: BTreeSet<Rec> = want.iter().filter(|r| r.name == *t).cloned().collect();
		ensure!(got == want, "{} type {} resolves to\n{}instead of\n{}", name, ty, show(&got.into_iter().collect::<Vec<_>>()), show(&want.into_iter().collect::<Vec<_>>()));
		c.count("names_resolved_exactly");
	}
	for r in p.iter() { if let RD::RRSig(s) = &r.rd { c.count(&format!("accepted with algorithm {}", s.alg)); } }
	if p.iter().any(|r| matches!(&r.rd, RD::RRSig(s) if !p.iter().any(|k| k.name == s.signer && matches!(&k.rd, RD::DnsKey { flags, proto, alg, key } if *alg == s.alg && key_tag(*flags, *proto, *alg, key) == s.tag)))) { c.count("proofs_with_signatures_of_unpublished_keys"); }
	for r in p.iter() { if let RD::DS { dt, .. } = &r.rd { c.count(&format!("delegation digest type {}", dt)); } }
	for r in p.iter() { if !matches!(r.ty(), RRSIG) { c.count(&format!("type {}", r.ty())); } }
	for a in refs.iter() { for u in a.uses.iter() { if !u.denial.is_empty() { c.count(if u.denial[0].ty == NSEC { "wildcards with NSEC" } else if u.wrap { "wildcards with the last NSEC3" } else { "wildcards with NSEC3" }); } } }
	c.sample(|| format!("{} records proving {:?}", p.len(), answers.iter().map(|a| (a.0.text(), a.1)).collect::<Vec<_>>()));
	Ok(())
}
/// Each supported algorithm at each level, with sets of every type
fn c03_algs(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let apexes = [Nm::root(), Nm::new("t."), Nm::new("z.t.")];
	let i = c.idx;
	let algs = supported_algs();
	let dts = [2u8, 1];
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let alg = algs[((i / [1, 5, 25][lvl]) % 5) as usize];
		let k = Key::of_alg(alg, rng.next() >> 1);
		z.simple_key(k, dts[rng.below(2)]);
		if lvl == 2 {
			let apex = z.apex.clone();
			let dummy = World::empty();
			for ty in [TXT, A, AAAA, TLSA, NS, CNAME, DNAME] {
				let owner = apex.child(&format!("t{}", ty));
				let n = if matches!(ty, CNAME | DNAME) { 1 } else { rng.range(1, 6) };
				let mut rds = Vec::new();
				while rds.len() < n { let rd = gen_rd(rng, ty, &dummy); if !rds.contains(&rd) { rds.push(rd); } }
				z.sets.insert((owner, ty), rds);
			}
		}
	});
	let mut answers = Vec::new();
	for (n, t) in w.zones[2].sets.keys() { if matches!(*t, CNAME | DNAME) { continue; } if let Some(a) = w.answer(n, *t) { answers.push((n.clone(), *t, a)); } }
	accept(c, &w, &mut rng, &answers)?;
	// redirects on their own
	let p: Vec<Rec> = w.proof(&[]).into_iter().chain(w.chain_sets(2).iter().flat_map(|s| s.recs())).chain(w.set(2, &Nm::new("t5.z.t."), CNAME).recs()).chain(w.set(2, &Nm::new("t39.z.t."), DNAME).recs()).collect();
	let mut q: Vec<Rec> = Vec::new();
	for r in p { if !q.contains(&r) { q.push(r); } }
	c.artifact("proof", show(&q));
	match verify(c, &w, &q)? { Ok(v) => ensure!(v.recs.len() == 2, "expected the CNAME and the DNAME, got {}", show(&v.recs)), Err(e) => viol!("CNAME and DNAME refused: {:?}", e) }
	Ok(())
}
/// Wildcards above and below a zone cut, the denials for which are the two records both zones have at the cut
fn c03_cuts(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut apexes = vec![Nm::root()];
	if rng.chance(2, 3) { apexes.push(Nm::new("p.")); }
	let upper = apexes.last().unwrap().clone();
	let cut = upper.child(*rng.pick(&["kid", "a", "m"]));
	apexes.push(cut.clone());
	if rng.chance(1, 4) { apexes.push(cut.child("x")); }
	let redirect = rng.chance(1, 2);
	let from = upper.child(*rng.pick(&["mm", "n", "o"]));
	let to = cut.child(*rng.pick(&["!", "#", "$", "'"]));
	let to = if rng.chance(1, 4) { to.child("deep") } else { to };
	let w = World::chain(&mut rng, &apexes, |_, z, rng| {
		let k = Key::ed25519(rng.next() >> 1);
		z.simple_key(k, 2);
		if z.apex == upper {
			let rd = if redirect { RD::CName(to.clone()) } else { RD::Txt(b"above".to_vec()) };
			z.sets.insert((z.apex.child("*"), rd.ty()), vec![rd]);
			z.sets.insert((z.apex.child("zz"), TXT), vec![RD::Txt(b"last".to_vec())]);
		}
		if z.apex == cut { z.sets.insert((z.apex.child("*"), TXT), vec![RD::Txt(b"below".to_vec())]); }
	});
	let mut answers = Vec::new();
	for n in [&from, &to] { if let Some(a) = w.answer(n, TXT) { if usable(&a) { answers.push((n.clone(), TXT, a)); } } }
	if rng.chance(1, 4) { answers.truncate(1); }
	if answers.is_empty() { return Ok(()); }
	let p = w.proof(&answers.iter().map(|a| &a.2).collect::<Vec<_>>());
	if p.iter().filter(|r| r.name == cut && r.ty() == NSEC).count() > 1 { c.count("both_denial_records_of_a_zone_cut"); }
	accept(c, &w, &mut rng, &answers)
}
/// Zones whose own name is that of a wildcard, or below one, where an asterisk is a label like others
fn c03_star(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut apexes = vec![Nm::root()];
	let depth = rng.range(1, 3);
	let star = rng.below(depth);
	for i in 0..depth {
		let up = apexes.last().unwrap().clone();
		let a = if i == star { up.child("*") } else { up.child(*rng.pick(&["a", "m", "zz"])) };
		apexes.push(if i == star && rng.chance(1, 3) { a.child("b") } else { a });
	}
	let w = World::chain(&mut rng, &apexes, |_, z, rng| {
		let k = Key::ed25519(rng.next() >> 1);
		z.simple_key(k, 2);
		if z.apex.n() > star { z.sets.insert((z.apex.child("x"), *rng.pick(&[TXT, A])), vec![]); }
		for ((_, t), rds) in z.sets.iter_mut() { *rds = vec![if *t == TXT { RD::Txt(vec![rng.byte()]) } else { RD::A([192, 0, 2, rng.byte()]) }]; }
	});
	let mut answers = Vec::new();
	for z in w.zones.iter() { for (n, t) in z.sets.keys() { if let Some(a) = w.answer(n, *t) { if usable(&a) { answers.push((n.clone(), *t, a)); } } } }
	if answers.is_empty() { return Ok(()); }
	c.count("zones_at_wildcard_names");
	accept(c, &w, &mut rng, &answers)
}
/// Many of one thing: keys, delegation records, signatures, records, zones, names, wildcards in use, aliases, labels
fn c03_many(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let kind = if c.idx % 48 == 11 { 11 } else { c.idx % 12 % 11 };
	let mut apexes = vec![Nm::root()];
	let n = match rng.below(3) { 0 => rng.range(3, 12), 1 => rng.range(8, 24), _ => rng.range(20, 60) };
	match kind {
		4 => for i in 0..n.min(45) { let up = apexes[i].clone(); apexes.push(up.child(*rng.pick(&["a", "b", "zz"]))); },
		8 => for i in 0..n { apexes.push(Nm::root().child(&format!("z{}", i))); },
		_ => for _ in 0..rng.range(1, 2) { let up = apexes.last().unwrap().clone(); apexes.push(up.child(*rng.pick(&["t", "m"]))); },
	}
	let last = apexes.last().unwrap().clone();
	let at = if kind == 0 || kind == 2 { rng.below(apexes.len()) } else { rng.range(1, apexes.len() - 1) };
	let nsec3 = rng.chance(1, 2);
	let mut ask: Vec<(Nm, u16)> = Vec::new();
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let k = Key::ed25519(rng.next() >> 1);
		z.simple_key(if kind == 11 && lvl == at { Key::huge(*rng.pick(&[8, 10])) } else { k }, 2);
		if lvl == at && matches!(kind, 0 | 2) {
			let mut k = z.keys[0].clone();
			while z.keys.len() <= if kind == 2 { n.min(25) } else { n } {
				if rng.chance(1, 20) { continue; }
				k = Key::ed25519(rng.next() >> 1);
				if rng.chance(1, 3) { k = k.ksk(); }
				if z.keys.iter().all(|h| h.tag() != k.tag()) { z.keys.push(k.clone()); }
			}
			z.zone_signers = if kind == 2 { (0..z.keys.len()).collect() } else { vec![rng.below(z.keys.len())] };
			if kind == 2 && rng.chance(1, 2) { z.key_signers = z.zone_signers.clone(); }
		}
		if lvl == at && kind == 1 {
			let mut others: Vec<RD> = Vec::new();
			while others.len() < n {
				let k = Key::ed25519(rng.next() >> 1).ksk();
				if z.keys.iter().any(|h| h.tag() == k.tag()) { continue; }
				others.push(k.ds(&z.apex, *rng.pick(&[2, 2, 2, 4, 1])));
			}
			z.ds.extend(others);
			z.ds.sort();
			z.ds.dedup();
		}
		if nsec3 { z.denial = Denial::Nsec3 { iter: rng.below(3) as u16, salt: vec![], optout: false }; }
		if kind == 8 { let o = z.apex.child("d"); z.sets.insert((o.clone(), TXT), vec![RD::Txt(z.apex.text().into_bytes())]); ask.push((o, TXT)); }
		if z.apex != last { return; }
		match kind {
			3 => {
				let t = *rng.pick(&[TXT, A]);
				let rds: BTreeSet<RD> = (0..n * 8).map(|_| if t == A { RD::A([10, rng.byte(), rng.byte(), rng.byte()]) } else { let n = rng.range(0, 40); RD::Txt(rng.bytes(n)) }).collect();
				let o = z.apex.child("set");
				z.sets.insert((o.clone(), t), rds.into_iter().collect());
				ask.push((o, t));
			},
			5 => for i in 0..n { let o = z.apex.child(&format!("n{}", i)); z.sets.insert((o.clone(), TXT), vec![RD::Txt(vec![i as u8])]); ask.push((o, TXT)); },
			6 => {
				z.sets.insert((z.apex.child("*"), TXT), vec![RD::Txt(b"wild".to_vec())]);
				for i in 0..n { z.sets.insert((z.apex.child(&format!("n{}", 10 + i)), A), vec![RD::A([10, 0, 0, 1])]); let o = z.apex.child(&format!("n{}x", 10 + i)); ask.push((o, TXT)); }
			},
			7 => {
				for i in 0..n { let (a, b) = (z.apex.child(&format!("c{}", i)), z.apex.child(&format!("c{}", i + 1))); z.sets.insert((a, CNAME), vec![RD::CName(b)]); }
				z.sets.insert((z.apex.child(&format!("c{}", n)), TXT), vec![RD::Txt(b"end".to_vec())]);
				ask.push((z.apex.child("c0"), TXT));
			},
			10 => {
				let o = z.apex.child("big");
				for _ in 0..rng.range(1, 3) {
					let t = *rng.pick(&[TXT, TXT, TLSA]);
					let len = *rng.pick(&[255usize, 256, 510, 511, 4096, 32767, 32768, 60000, 64000]);
					let data = rng.bytes(len);
					let mut set = vec![if t == TXT { RD::Txt(data) } else { RD::Tlsa(3, 0, 0, data) }];
					if rng.chance(1, 3) { let data = rng.bytes(64000); set.push(if t == TXT { RD::Txt(data) } else { RD::Tlsa(3, 0, 0, data) }); set.sort(); }
					z.sets.insert((o.clone(), t), set);
					ask.push((o.clone(), t));
				}
			},
			9 => { let mut o = z.apex.clone(); for _ in 0..n * 2 { if o.text_len() < 250 { o = o.child(*rng.pick(&["a", "b"])); } } z.sets.insert((o.clone(), TXT), vec![RD::Txt(b"deep".to_vec())]); ask.push((o, TXT)); },
			_ => { let o = z.apex.child("x"); z.sets.insert((o.clone(), TXT), vec![RD::Txt(b"data".to_vec())]); if kind != 8 { ask.push((o, TXT)); } },
		}
	});
	let mut answers = Vec::new();
	for (n, t) in ask { if let Some(a) = w.answer(&n, t) { if usable(&a) { answers.push((n, t, a)); } } }
	if answers.is_empty() { return Ok(()); }
	c.count(["many keys", "many delegation records", "many signatures", "many records", "many zones in a row", "many names", "many uses of a wildcard", "many aliases", "many zones side by side", "many labels", "very long records", "the largest RSA key"][kind as usize]);
	accept(c, &w, &mut rng, &answers)
}
/// Record data whose order is easily got wrong, in sets
fn c03_order(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let apexes = [Nm::root(), Nm::new("t.")];
	let ty = *rng.pick(&[TXT, TXT, A, AAAA, TLSA, NS, NS, DNSKEY, DS]);
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let k = Key::ed25519(rng.next());
		z.simple_key(k, 2);
		if lvl == 1 {
			let dummy = World::empty();
			match ty {
				DNSKEY => {
					for _ in 0..rng.range(2, 5) {
						let mut k = Key::ed25519(rng.next());
						k.flags = *rng.pick(&[0, 1, 255, 256, 257, 0x8000, 0xffff]);
						if rng.chance(1, 3) { k.proto = rng.u8b(); }
						if rng.chance(1, 3) { k.alg = rng.u8b(); let n = rng.range(1, 40); k.pubkey = rng.bytes(n); k.signer = Signer::Dummy(1); }
						if !z.keys.iter().any(|o| o.tag() == k.tag()) { z.keys.push(k); }
					}
				},
				DS => {
					for _ in 0..rng.range(1, 5) {
						let n = *rng.pick(&[20, 32, 48, 31, 1]);
						z.ds.push(RD::DS { tag: rng.u16b(), alg: rng.u8b(), dt: *rng.pick(&[2, 1, 4, 0, 255, 128]), digest: rng.bytes(n) });
					}
					z.ds.dedup();
				},
				_ => {},
			}
			let t = if matches!(ty, DNSKEY | DS) { TXT } else { ty };
			let mut rds: Vec<RD> = Vec::new();
			let n = rng.range(2, 8);
			let common = rng.range(0, 300);
			for _ in 0..n * 2 {
				let rd = match t {
					TXT => { let mut d = vec![b'm'; common]; let k = *rng.pick(&[0, 0, 1, 2, 255, 256]); d.extend(rng.bytes(k)); if !d.is_empty() { let i = rng.below(d.len()); d[i] = rng.byte(); } RD::Txt(d) },
					NS => { let mut n = Nm::new("t."); for _ in 0..rng.range(0, 3) { n = n.child(*rng.pick(&["a", "b", "aa", "ab", "z", "-", "a-", "!", "long-one", "zz"])); } if rng.chance(1, 3) { n = Nm(n.0[..n.n() - 1].to_vec()); } RD::NS(n) },
					TLSA => { let n = rng.range(1, 4); RD::Tlsa(rng.u8b(), rng.u8b(), rng.u8b(), rng.bytes(n)) },
					A => { let v = [0, 1, 127, 128, 255]; RD::A([*rng.pick(&v), *rng.pick(&v), *rng.pick(&v), *rng.pick(&v)]) },
					_ => gen_rd(rng, t, &dummy),
				};
				if !rds.contains(&rd) && rds.len() < n { rds.push(rd); }
			}
			let o = z.apex.child("set");
			z.sets.insert((o, t), rds);
		}
	});
	let (n, t) = w.zones[1].sets.keys().next().unwrap().clone();
	let a = w.answer(&n, t).unwrap();
	c.count(&format!("ordered sets of type {}", ty));
	accept(c, &w, &mut rng, &[(n, t, a)])
}

/// Key sets in which keys that are not to be used share their tag with one that is
fn c03_collide(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let apexes = [Nm::root(), Nm::new("t."), Nm::new("z.t.")];
	let at = rng.below(3);
	let mut whats: Vec<&str> = Vec::new();
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let alg = *rng.pick(&[15u8, 15, 13]);
		let k = Key::of_alg(alg, rng.next() >> 1).ksk();
		z.simple_key(k.clone(), 2);
		if lvl == at {
			for _ in 0..rng.range(1, 3) {
				let mut e = Key::of_alg(253, rng.next());
				let n = 2 * rng.range(2, 40);
				e.pubkey = rng.bytes(n);
				e.flags = 257;
				e.alg = k.alg;
				let what = match rng.below(4) {
					0 => { e.proto = *rng.pick(&[0, 1, 2, 4, 255]); "same tag, other protocol" },
					1 => { e.flags = *rng.pick(&[0, 1, 0x80, 0xfeff]); "same tag, not a zone key" },
					_ => { while e.alg == k.alg { e.alg = *rng.pick(&[0, 1, 5, 7, 8, 10, 13, 14, 15, 16, 253, 255]); } if e.alg == 1 { e.alg = 2; } "same tag, other algorithm" },
				};
				// the last two bytes of the key adjust its tag
				let mut v = 0u16;
				while e.tag() != k.tag() && v < 0xffff { v += 1; let n = e.pubkey.len(); e.pubkey[n - 2..].copy_from_slice(&v.to_be_bytes()); }
				if e.tag() == k.tag() && !z.keys.iter().any(|o| o.rd() == e.rd()) { z.keys.push(e); whats.push(what); }
			}
		}
		if lvl == 2 { let o = z.apex.child("data"); z.sets.insert((o, TXT), vec![RD::Txt(b"data".to_vec())]); }
	});
	for h in whats { c.count(h); }
	let n = Nm::new("data.z.t.");
	let a = w.answer(&n, TXT).unwrap();
	accept(c, &w, &mut rng, &[(n, TXT, a)])
}

fn c06_permute(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let (multi_sig, zsk_signs_keys) = (*rng.pick(&[0, 35]), *rng.pick(&[0, 40]));
	let w = World::gen(&mut rng, &Cfg { multi_sig, unsupported: 30, zsk_signs_keys, wildcard: 80, zones: (2, 6), ..Cfg::rich() });
	let k = rng.range(1, 4);
	let answers: Vec<_> = pick_answers(&mut rng, &w, k).into_iter().filter(|a| usable(&a.2)).collect();
	if answers.is_empty() { return Ok(()); }
	let refs: Vec<&Answer> = answers.iter().map(|a| &a.2).collect();
	let mut p = w.proof(&refs);
	let mut first: Option<Verdict> = None;
	// With several usable signatures over one set any of them may be relied on
	let mut sets: Vec<(&Nm, u16)> = p.iter().filter_map(|r| if let RD::RRSig(s) = &r.rd { if alg_supported(s.alg) { Some((&r.name, s.ty)) } else { None } } else { None }).collect();
	let n_sigs = sets.len();
	sets.sort();
	sets.dedup();
	let one_sig_each = sets.len() == n_sigs;
	let reachable: Vec<Nm> = p.iter().filter(|r| r.ty() == DNSKEY).map(|r| r.name.clone()).collect();
	let base = p.clone();
	for round in 0..12 {
		match round { 0 => {}, 1 => p.reverse(), 2 => p.sort(), 3 => { p.sort(); p.reverse() }, _ => rng.shuffle(&mut p) }
		let mut q = p.clone();
		let noisy = round > 5;
		let mut noise = Vec::new();
		if noisy {
			for _ in 0..rng.range(1, 6) { add_noise(&mut rng, &w, &base, &reachable, &mut noise); }
			for n in noise.iter() { let i = rng.range(0, q.len()); q.insert(i, n.clone()); }
		}
		c.reset_artifacts();
		c.artifact("asked", format!("{:?}", answers.iter().map(|a| (a.0.text(), a.1)).collect::<Vec<_>>()));
		c.artifact("unrelated records", show(&noise));
		c.artifact("proof", show(&q));
		c.nontrivial(fp(&q));
		let v = verify(c, &w, &q)?;
		let again = verify(c, &w, &q)?;
		match (&v, &again) {
			(Ok(a), Ok(b)) => ensure!(a.recs == b.recs && (a.from, a.exp, a.ttl) == (b.from, b.exp, b.ttl), "the same input gave two outputs"),
			(Err(a), Err(b)) => ensure!(a == b, "the same input gave two errors"),
			_ => viol!("the same input gave two verdicts"),
		}
		match (v, &first) {
			(Ok(v), None) => first = Some(v),
			(Ok(v), Some(f)) => {
				ensure!(v.set() == f.set(), "other records verified in another order{}", if noisy { " or with unrelated records" } else { "" });
				if one_sig_each { c.count("windows_compared"); }
				ensure!(!one_sig_each || (v.from, v.exp, v.ttl) == (f.from, f.exp, f.ttl), "window or lifetime changed from {:?} to {:?} with the order{}", (f.from, f.exp, f.ttl), (v.from, v.exp, v.ttl), if noisy { " or with unrelated records" } else { "" });
				c.count(if noisy { "same_with_unrelated_records" } else { "same_in_another_order" });
			},
			(Err(e), None) => viol!("a correctly signed proof was refused: {:?}", e),
			(Err(e), Some(_)) => viol!("verdict changed to {:?} with the order{}", e, if noisy { " or with unrelated records" } else { "" }),
		}
	}
	Ok(())
}
/// Records that nothing in the chain vouches for
fn add_noise(rng: &mut Rng, w: &World, base: &[Rec], reachable: &[Nm], out: &mut Vec<Rec>) {
	let signed_at = |n: &Nm, t: u16| base.iter().any(|r| r.name == *n && match &r.rd { RD::RRSig(s) => s.ty == t, _ => r.ty() == t });
	let name = w.interesting_names(rng, 1).pop().unwrap();
	match rng.below(6) {
		0 | 1 => {
			let ty = *rng.pick(&[TXT, A, CNAME, DNAME, NS, TLSA, AAAA]);
			if !signed_at(&name, ty) { let rd = gen_rd(rng, ty, w); out.push(Rec::new(&name, rd)); }
		},
		2 => {
			// a whole foreign zone, properly signed by itself
			let z = match rng.below(3) { 0 => Nm::new("foreign."), 1 => name.clone(), _ => { let mut m = rng.pick(reachable).clone(); if m.n() == 0 { m = Nm::new("x."); } else { m.0[0].insert(0, b'x'); if m.0[0].len() > 60 { return; } } m } };
			if reachable.contains(&z) || base.iter().any(|r| r.name == z && r.ty() == DS) { return; }
			let k = Key::ed25519(rng.next()).ksk();
			out.extend(forge(&k, &z, &z, DNSKEY, vec![k.rd()]));
			let d = z.child("data");
			if !signed_at(&d, TXT) { out.extend(forge(&k, &z, &d, TXT, vec![RD::Txt(b"noise".to_vec())])); }
		},
		3 => {
			// a foreign zone's signature over a name of ours
			let z = Nm::new("foreign.");
			let k = Key::ed25519(rng.next());
			let t = *rng.pick(&[TXT, A, DNSKEY, DS, NSEC]);
			let n = if rng.chance(1, 2) { rng.pick(reachable).clone() } else { name };
			out.push(Rec::new(&n, RD::RRSig(make_sig(&k, &z, &n, &[], t, 1, NOW - 10, NOW + 10))));
		},
		4 => {
			let ok = !base.iter().any(|r| r.name == name && r.ty() == DS) && !reachable.contains(&name);
			if ok { let k = Key::ed25519(rng.next()); out.push(Rec::new(&name, k.ds(&name, 2))); }
		},
		_ => {
			let o = name.child(&b32(&rng.bytes(20)));
			if o.text_len() < 250 { let next = rng.bytes(20); out.push(Rec::new(&o, RD::NSec3 { algo: 1, flags: 0, iter: rng.u16b(), salt: rng.bytes(3), next, types: Types::new() })); }
		},
	}
}

// ---------------------------------------------------------------- C04

fn real_time(t: u32) -> u64 { if (t as u64) < 851_472_000 { t as u64 + (1u64 << 32) } else { t as u64 } }

fn c04_window(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut w = World::gen(&mut rng, &Cfg { multi_sig: 0, unsupported: 0, zsk_signs_keys: 0, wildcard: 80, ..Cfg::fast() });
	// One signature per set; times from ordinary ranges, over the rollover, or clashing
	let style = rng.below(13);
	w.times = match style {
		0 | 1 => Times { inc: (NOW - 1_000_000, NOW), exp: (NOW + 1, NOW + 1_000_000), ttl: (0, 1_000_000), ..Times::default() },
		2 => Times { inc: (4_294_000_000, u32::MAX), exp: (0, 3_000_000), ttl: (0, u32::MAX), ..Times::default() },
		3 => Times { inc: (0, 500_000), exp: (500_001, 800_000_000), ttl: (1, 10), ..Times::default() },
		4 => Times { inc: (NOW - 1000, NOW + 1000), exp: (NOW - 800, NOW + 3000), ttl: (0, 3), ..Times::default() },
		// inceptions before and after the rollover, expirations after it; or all expirations near it, on either side
		5 => Times { inc: (4_000_000_000, u32::MAX), inc2: Some((0, 500_000)), exp: (600_000, 800_000_000), ..Times::default() },
		6 => Times { inc: (NOW, NOW + 1000), exp: (4_200_000_000, u32::MAX), exp2: Some((0, 800_000_000)), ..Times::default() },
		7 => Times { inc: (4_000_000_000, u32::MAX), inc2: Some((0, 500_000)), exp: (4_200_000_000, u32::MAX), exp2: Some((0, 800_000_000)), ttl: (0, 100), ..Times::default() },
		// near the cutoff, the exact place of which (in the last week of 1996) does not matter
		8 => { let d = *rng.pick(&[2, 1000, 80_000_000]); Times { inc: (852_076_800, 852_076_800 + d / 2), exp: (852_076_801 + d / 2, 852_076_801 + d), ..Times::default() } },
		9 => { let d = *rng.pick(&[0, 1000, 80_000_000]); Times { inc: (NOW - 10, NOW), exp: (851_471_999 - d, 851_471_999), exp2: if rng.chance(1, 2) { Some((NOW + 1, u32::MAX)) } else { None }, ..Times::default() } },
		// a moment of validity, or just none
		// the first and last seconds of the 32-bit clock
		12 => match rng.below(4) {
			0 => Times { inc: (u32::MAX - 2, u32::MAX), exp: (0, 2), ..Times::default() },
			1 => Times { inc: (u32::MAX - 1, u32::MAX), inc2: Some((0, 0)), exp: (1, 2), ttl: (0, 0), ..Times::default() },
			2 => Times { inc: (0, 1), exp: (1, 3), ..Times::default() },
			_ => Times { inc: (NOW, u32::MAX - 1), exp: (u32::MAX, u32::MAX), exp2: Some((0, 0)), ..Times::default() },
		},
		10 => { let d = rng.below(3) as u32; Times { inc: (NOW - 2, NOW), exp: (NOW + d, NOW + 2), ..Times::default() } },
		_ => Times { inc: (900_000_000, 4_000_000_000), exp: (3_000_000_000, u32::MAX), ttl: (u32::MAX - 5, u32::MAX), ..Times::default() },
	};
	// any window may come with any lifetime
	if rng.chance(1, 3) { w.times.ttl = *rng.pick(&[(0, 0), (0, 1), (0, 60), (0, u32::MAX), (u32::MAX - 1, u32::MAX), (1 << 31, u32::MAX), (604_799, 604_801)]); }
	for z in w.zones.iter_mut() { z.key_signers.truncate(1); z.zone_signers.truncate(1); }
	// the key signer must be one that the delegation names
	let k = rng.range(1, 3);
	let answers: Vec<_> = pick_answers(&mut rng, &w, k).into_iter().filter(|a| usable(&a.2)).collect();
	if answers.is_empty() { return Ok(()); }
	let refs: Vec<&Answer> = answers.iter().map(|a| &a.2).collect();
	let mut p = w.proof(&refs);
	let sigs: Vec<Sig> = p.iter().filter_map(|r| if let RD::RRSig(s) = &r.rd { Some(s.clone()) } else { None }).collect();
	let from = sigs.iter().map(|s| real_time(s.inc)).max().unwrap();
	let exp = sigs.iter().map(|s| real_time(s.exp)).min().unwrap();
	let ttl = sigs.iter().map(|s| s.ttl).min().unwrap();
	rng.shuffle(&mut p);
	c.artifact("expected", format!("from {} to {} ttl {}", from, exp, ttl));
	c.artifact("proof", show(&p));
	c.nontrivial(fp(&p));
	match verify(c, &w, &p)? {
		Ok(v) => {
			ensure!(from < exp, "accepted although the signatures have no common moment of validity ({} .. {})", from, exp);
			ensure!(v.from == from, "valid_from is {}, but the latest inception is {}", v.from, from);
			ensure!(v.exp == exp, "expires is {}, but the earliest expiration is {}", v.exp, exp);
			ensure!(v.ttl == ttl, "max_cache_ttl is {}, but the smallest original TTL is {}", v.ttl, ttl);
			c.count("windows_exact");
			if style == 10 { c.count("windows_of_a_second_or_two"); }
			if matches!(style, 2 | 3 | 5 | 6 | 7 | 12) { c.count("windows_across_the_rollover"); }
			for u in refs.iter().flat_map(|a| a.uses.iter()) { if !u.denial.is_empty() { c.count("windows_with_denial_records"); } }
		},
		Err(e) => { if from == exp { c.count("empty_windows_rejected"); } ensure!(from >= exp, "refused ({:?}) although all signatures are valid from {} to {}", e, from, exp); c.count("disjoint_windows_rejected"); },
	}
	Ok(())
}
/// One signature out of step with all others, at each place in turn
fn c04_each(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut w = World::gen(&mut rng, &Cfg { multi_sig: 0, unsupported: 0, zsk_signs_keys: 0, wildcard: 90, ..Cfg::fast() });
	w.times = Times { inc: (NOW - 1000, NOW - 1000), exp: (NOW + 1000, NOW + 1000), ttl: (600, 600), ..Times::default() };
	for z in w.zones.iter_mut() { z.key_signers.truncate(1); z.zone_signers.truncate(1); }
	let answers: Vec<_> = pick_answers(&mut rng, &w, 1).into_iter().filter(|a| usable(&a.2)).collect();
	if answers.is_empty() { return Ok(()); }
	let a = &answers[0].2;
	let mut sets: Vec<(usize, Nm, u16)> = Vec::new();
	for u in a.uses.iter() {
		sets.push((u.set.zone, u.set.owner.clone(), u.set.ty));
		for d in u.denial.iter() { sets.push((d.zone, d.owner.clone(), d.ty)); }
		for s in w.chain_sets(u.set.zone) { sets.push((s.zone, s.owner, s.ty)); }
	}
	sets.sort();
	sets.dedup();
	for (zi, owner, ty) in sets {
		for what in 0..4 {
			w.forget();
			let mut s = w.set(zi, &owner, ty);
			let z = &w.zones[zi];
			let k = &z.keys[if ty == DNSKEY { z.key_signers[0] } else { z.zone_signers[0] }];
			let (mut inc, mut exp, mut ttl) = (NOW - 1000, NOW + 1000, 600);
			match what { 0 => inc = NOW - 17, 1 => exp = NOW + 29, 2 => ttl = 31, _ => { inc = NOW + 2000; exp = NOW + 3000 } }
			s.sigs = vec![make_sig(k, &z.apex, &owner, &s.rds, ty, ttl, inc, exp)];
			w.put(s);
			// answers hold copies of the sets, so ask again
			let a = w.answer(&answers[0].0, answers[0].1).unwrap();
			let mut p = w.proof(&[&a]);
			rng.shuffle(&mut p);
			c.reset_artifacts();
			c.artifact("odd one out", format!("{} type {}: {} .. {} ttl {}", owner, ty, inc, exp, ttl));
			c.artifact("proof", show(&p));
			c.nontrivial(fp(&p));
			c.count(&format!("odd signature over type {}", ty));
			let v = verify(c, &w, &p)?;
			if what == 3 { ensure!(v.is_err(), "accepted although the {} signature at {} is not valid at the same time as the others", ty, owner); continue; }
			let v = match v { Ok(v) => v, Err(e) => viol!("refused: {:?}", e) };
			let (f, e, t) = (if what == 0 { NOW - 17 } else { NOW - 1000 }, if what == 1 { NOW + 29 } else { NOW + 1000 }, if what == 2 { 31 } else { 600 });
			ensure!((v.from, v.exp, v.ttl) == (f as u64, e as u64, t), "window and lifetime are {:?}, expected {:?}: the signature over type {} at {} was disregarded or misread", (v.from, v.exp, v.ttl), (f, e, t), ty, owner);
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- C05

/// A chain in which, at one place, the only thing to rely on is not eligible
fn c05_one(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let depth = rng.range(1, 3);
	let mut apexes = vec![Nm::root()];
	for i in 0..depth { let a = apexes[i].child(*rng.pick(&["z", "com", "a-b"])); apexes.push(a); }
	// where it happens: a zone's delegation/key set, or its data signature
	let at = rng.below(apexes.len());
	let place = rng.below(2); // 0: the key named by the delegation, 1: the key signing the data
	let kind = rng.below(12);
	let seed = rng.next();
	let algs = [15u8, 13, 8, 10, 14];
	let alg = *rng.pick(&algs);
	let build = |bad: bool| -> Option<(World, String)> {
		let mut rng = Rng::new(seed, "c05", 0);
		let mut what = String::from("nothing");
		let mut ok = true;
		let mut w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
			let a0 = if lvl == at { alg } else { 15 };
			let mut ksk = Key::of_alg(a0, (rng.next() >> 1) % 6).ksk();
			let mut zsk = Key::of_alg(a0, if a0 == 15 { rng.next() } else { 1 + (rng.next() >> 1) % 2 });
			if a0 != 15 && zsk.pubkey == ksk.pubkey { zsk = Key::of_alg(a0, 3); }
			if zsk.pubkey == ksk.pubkey { ok = false; }
			let mut ds = ksk.ds(&z.apex, 2);
			let mut extra_ds = Vec::new();
			if lvl == at {
				let key = if place == 0 { &mut ksk } else { &mut zsk };
				match kind {
					0 => { what = "key without the zone flag".into(); let f = *rng.pick(&[0u16, 1, 2, 0x80, 0xfeff, 0x0200, 0x8001]); if bad { key.flags = f; } },
					1 => { what = "protocol other than 3".into(); let p = *rng.pick(&[0u8, 1, 2, 4, 255]); if bad { key.proto = p; } },
					_ => {},
				}
				ds = ksk.ds(&z.apex, 2);
				if let RD::DS { tag, alg, dt, digest } = &mut ds {
					match (place, kind) {
						(0, 2) => { what = "delegation with another key tag".into(); let d = 1 + rng.below(65535) as u16; if bad { *tag = tag.wrapping_add(d); } },
						(0, 3) => { what = "delegation with another algorithm".into(); let n = *rng.pick(&[5u8, 7, 8, 10, 13, 14, 15, 16, 0]); if n == *alg { ok = false; } if bad { *alg = n; } },
						(0, 4) => {
							what = "digest cut short, extended or changed".into();
							let how = rng.below(5);
							let k = rng.below(digest.len());
							if bad { match how { 0 => { digest.pop(); }, 1 => digest.push(0), 2 => digest[k] ^= 1 << (k % 8), 3 => digest.clear(), _ => digest.truncate(k) } }
						},
						(0, 5) => { what = "digest type that does not fit".into(); let t = *rng.pick(&[1u8, 4, 0, 3, 5, 255]); if bad { *dt = t; } },
						_ => {},
					}
				}
				if place == 0 && kind == 6 {
					what = "SHA-1 digest beside a stronger one that does not match".into();
					ds = ksk.ds(&z.apex, 1);
					if bad {
						let other = Key::ed25519(rng.next());
						let (n, t) = *rng.pick(&[(32, 2u8), (32, 2), (48, 4)]);
						extra_ds.push(match rng.below(3) {
							0 => RD::DS { tag: ksk.tag(), alg: ksk.alg, dt: t, digest: rng.bytes(n) },
							1 => other.ds(&z.apex, t),
							_ => RD::DS { tag: rng.u16b(), alg: ksk.alg, dt: t, digest: rng.bytes(n) },
						});
					}
				}
			}
			z.keys = vec![ksk, zsk];
			z.key_signers = vec![0];
			z.zone_signers = vec![1];
			z.ds = vec![ds];
			z.ds.extend(extra_ds);
			if z.keys[0].tag() == z.keys[1].tag() { ok = false; }
			if lvl == apexes.len() - 1 { let o = z.apex.child("data"); z.sets.insert((o, TXT), vec![RD::Txt(b"data".to_vec())]); }
			// something below the place to rely on it
			if lvl == at { let o = z.apex.child("here"); z.sets.insert((o, A), vec![RD::A([1, 1, 1, 1])]); }
		});
		// signatures made or labelled wrongly
		let z = &w.zones[at];
		let sets: Vec<Set> = if place == 0 { vec![w.set(at, &z.apex, DNSKEY)] } else {
			let mut v = vec![w.set(at, &z.apex.child("here"), A)];
			if at + 1 < apexes.len() { v.push(w.set(at, &apexes[at + 1], DS)); } else { v.push(w.set(at, &z.apex.child("data"), TXT)); }
			v
		};
		let key = z.keys[place].clone();
		for mut s in sets {
			let old = s.sigs[0].clone();
			let mut n = old.clone();
			let resign = |n: &mut Sig, k: &Key, a: u8| { n.sig = k.sign_as(a, &signed_data(&n.head(), &s.owner, s.ty, n.ttl, &s.rds)); };
			match kind {
				7 => { what = "signature with another key tag".into(); let d = 1 + rng.below(65535) as u16; n.tag = n.tag.wrapping_add(d); if w.zones[at].keys.iter().any(|k| k.tag() == n.tag) { ok = false; } resign(&mut n, &key, key.alg); },
				8 => {
					what = "signature in another algorithm than the key's".into();
					let to = match key.alg { 8 => 10, 10 => 8, a => *[13u8, 14, 15].iter().find(|x| **x != a).unwrap() };
					n.alg = to;
					resign(&mut n, &key, to);
				},
				9 => { what = "signature in an unsupported algorithm".into(); n.alg = *rng.pick(&[0u8, 1, 3, 5, 6, 7, 12, 16, 17, 252, 255]); let how = if rng.chance(1, 2) { n.alg } else { key.alg }; resign(&mut n, &key, how); },
				10 => {
					what = "key and signature in an unsupported algorithm".into();
					if !bad { continue; }
					// only that key is there, with its digest in the delegation
					let a = *rng.pick(&[5u8, 7, 12, 16, 253]);
					n.alg = a;
					n.tag = 0;
				},
				11 => { what = "unsupported digest type only".into(); if place != 0 { ok = false; } continue; },
				_ => continue,
			}
			if bad { s.sigs = vec![n]; w.put(s); }
		}
		if bad && kind == 10 {
			let z = &mut w.zones[at];
			let a = *rng.pick(&[5u8, 7, 12, 16, 253]);
			let k = Key::of_alg(a, rng.next());
			if place == 0 {
				let k = k.ksk();
				z.ds = vec![k.ds(&z.apex, 2)];
				z.keys[0] = k;
			} else { z.keys[1] = k; }
			if z.keys[0].tag() == z.keys[1].tag() { ok = false; }
			w.forget();
		}
		if kind == 11 {
			let z = &mut w.zones[at];
			if bad { let k = &z.keys[0]; let dt = *rng.pick(&[0u8, 3, 5, 6, 255, 4]); z.ds = vec![k.ds(&z.apex, dt)]; }
			w.forget();
		}
		if what == "nothing" { ok = false; }
		if ok { Some((w, what)) } else { None }
	};
	let (Some((good, what)), Some((bad, _))) = (build(false), build(true)) else { return Ok(()) };
	let query = |w: &World| -> Vec<Rec> {
		let last = w.zones.last().unwrap().apex.child("data");
		let here = w.zones[at].apex.child("here");
		let a = w.answer(&last, TXT).unwrap();
		let b = w.answer(&here, A).unwrap();
		w.proof(&[&a, &b])
	};
	let mut p = query(&good);
	rng.shuffle(&mut p);
	c.artifact("good proof", show(&p));
	match verify(c, &good, &p)? { Ok(v) => ensure!(v.recs.len() == 2, "control: {} records", v.recs.len()), Err(e) => viol!("control chain was refused: {:?}", e) }
	let mut p = query(&bad);
	rng.shuffle(&mut p);
	c.reset_artifacts();
	c.artifact("what is wrong", format!("{} at zone {} ({})", what, bad.zones[at].apex, if place == 0 { "key set" } else { "data" }));
	c.artifact("proof", show(&p));
	c.nontrivial(fp(&p));
	c.count(&format!("{} ({})", what, if place == 0 { "key set" } else { "data" }));
	match verify(c, &bad, &p)? {
		Err(_) => c.count("ineligible_chains_refused"),
		Ok(v) => {
			// nothing at or below the place may come out
			for r in v.recs.iter() { ensure!(!r.name.under_eq(&bad.zones[at].apex), "verified {} although it rests on a {}", r, what); }
			c.count("ineligible_parts_left_out");
		},
	}
	Ok(())
}
/// One set, of any type, which only an ineligible key signed
fn c05_types(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let t = Nm::new("t.");
	let apexes = [Nm::root(), t.clone()];
	let types = [A, AAAA, TXT, TLSA, CNAME, DNAME];
	let denied = t.child("w").child("q");
	// the sets above, then those which only infrastructure has
	let victim = rng.below(9);
	let at = (victim != 7) as usize;
	let kind = rng.below(5);
	let nsec3 = rng.chance(1, 2);
	let odd_alg = if kind == 3 { *rng.pick(&[8u8, 10]) } else { *rng.pick(&[15u8, 13, 8]) };
	let mut what = "";
	let mut odd = Key::of_alg(odd_alg, rng.next() >> 1);
	let good_odd = odd.clone();
	match kind {
		0 => { what = "without the zone flag"; odd.flags = *rng.pick(&[0u16, 1, 2, 0x80, 0xfeff, 0x0200]); },
		1 => { what = "with another protocol"; odd.proto = *rng.pick(&[0u8, 1, 2, 4, 255]); },
		2 => what = "not in the key set",
		3 => {
			what = "which is badly encoded";
			let k = odd.pubkey.clone();
			let (el, body) = if k[0] == 0 { (u16::from_be_bytes([k[1], k[2]]), k[3..].to_vec()) } else { (k[0] as u16, k[1..].to_vec()) };
			let long = |n: u16| [&[0u8], &n.to_be_bytes()[..], &body[..]].concat();
			odd.pubkey = match rng.below(9) {
				0 => long(el + 256 * rng.range(1, 255) as u16),
				1 => long(0x8000 | el),
				2 => long(el << 8),
				3 => [&[0u8, el as u8][..], &body[..]].concat(),
				4 => [&[el as u8 - 1][..], &body[..]].concat(),
				5 => [&[el as u8 + 1][..], &body[..]].concat(),
				6 => { let n = rng.range(0, 3); [&[0u8; 3][..n], &[][..]].concat() },
				7 => { let n = rng.range(0, 1 + el as u64 as usize); [&[el as u8][..], &body[..n.min(el as usize)]].concat() },
				_ => { let n = rng.range(0, el as usize); [&[0u8], &el.to_be_bytes()[..], &body[..n]].concat() },
			};
		},
		_ => what = "of another algorithm than the signature",
	}
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let ksk = Key::ed25519(rng.next()).ksk();
		let zsk = Key::ed25519(rng.next());
		z.simple_key(ksk, 2);
		z.keys.push(zsk);
		z.zone_signers = vec![1];
		if lvl == at && kind != 2 { z.keys.push(odd.clone()); }
		if nsec3 { z.denial = Denial::Nsec3 { iter: rng.below(3) as u16, salt: rng.bytes(3), optout: false }; }
		if lvl == 1 {
			let dummy = World::empty();
			for ty in types {
				let rd = match ty { CNAME => RD::CName(t.child("elsewhere")), DNAME => RD::DName(t.child("elsewhere")), _ => gen_rd(rng, ty, &dummy) };
				z.sets.insert((z.apex.child(&format!("d{}", ty)), ty), vec![rd]);
			}
			z.sets.insert((z.apex.child("w").child("*"), TXT), vec![RD::Txt(b"wild".to_vec())]);
			z.sets.insert((z.apex.child("zzzz"), TXT), vec![RD::Txt(b"last".to_vec())]);
		}
	});
	{ let z = &w.zones[at]; for (i, k) in z.keys.iter().enumerate() { for l in z.keys[..i].iter() { if l.tag() == k.tag() { return Ok(()); } } if kind == 2 && k.tag() == odd.tag() { return Ok(()); } } }
	let mut asked: Vec<(Nm, u16)> = types.iter().map(|ty| (t.child(&format!("d{}", ty)), *ty)).collect();
	asked.push((denied.clone(), TXT));
	if rng.chance(1, 2) { asked.retain(|a| victim > 5 && a.0 == denied || victim < 6 && a.1 == types[victim] && a.0 != denied); }
	let answers: Vec<Answer> = asked.iter().map(|(n, ty)| w.answer(n, *ty)).collect::<Option<Vec<_>>>().ok_or("no answer".to_string())?;
	let refs: Vec<&Answer> = answers.iter().collect();
	let base = w.proof(&refs);
	match verify(c, &w, &base)? {
		Ok(v) => ensure!(v.set() == w.proven(&refs), "control: not all was verified"),
		// the badly encoded key may be refused wherever it stands; it does not sign anything yet
		Err(e) => viol!("the control, in which the key {} signs nothing, was refused: {:?}", what, e),
	}
	let (owner, ty, label) = match victim {
		0..=5 => (t.child(&format!("d{}", types[victim])), types[victim], "data"),
		6 => (t.clone(), DNSKEY, "key set"),
		7 => (t.clone(), DS, "delegation"),
		_ => { let a = w.answer(&denied, TXT).unwrap(); let d = &a.uses[0].denial[0]; (d.owner.clone(), d.ty, "denial") },
	};
	let old = w.set(at, &owner, ty);
	let apex = w.zones[at].apex.clone();
	let mut sig = make_sig(if kind == 4 { &good_odd } else { &odd }, &apex, &owner, &old.rds, ty, 300, NOW - 10, NOW + 10);
	if kind == 4 {
		// both sides of the mismatch: what the signature claims, and what it really is
		let to = match odd.alg { 8 => 10, 13 => *rng.pick(&[14, 15]), _ => 13 };
		sig.alg = to;
		if odd.alg == 8 || rng.chance(1, 2) { sig.sig = odd.sign_as(if odd.alg == 8 { to } else { odd.alg }, &signed_data(&sig.head(), &owner, ty, 300, &old.rds)); }
	}
	let mut p: Vec<Rec> = base.into_iter().filter(|r| !(r.name == owner && matches!(&r.rd, RD::RRSig(s) if s.ty == ty))).collect();
	p.push(Rec::new(&owner, RD::RRSig(sig)));
	rng.shuffle(&mut p);
	c.reset_artifacts();
	c.artifact("what is wrong", format!("the {} type {} at {} is signed by a key {} only", label, ty, owner, what));
	c.artifact("proof", show(&p));
	c.nontrivial(fp(&p));
	c.count(&format!("{} signed by a key {}", label, what));
	c.count(&format!("ineligible signature over type {}", ty));
	if let Ok(v) = verify(c, &w, &p)? {
		for r in v.recs.iter() {
			let rests = match victim { 0..=5 => r.name == owner, 6 | 7 => r.name.under_eq(&t), _ => r.name == denied };
			ensure!(!rests, "verified {} although the {} it rests on was signed by a key {} only", r, label, what);
		}
	}
	Ok(())
}
/// Ineligible keys which share the eligible key's tag
fn c05_tags(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let apexes = [Nm::root(), Nm::new("z.")];
	let at = rng.below(2);
	let mut what = "";
	let which = rng.below(3);
	let w = World::chain(&mut rng, &apexes, |lvl, z, rng| {
		let k = Key::ed25519(rng.next()).ksk();
		z.simple_key(k.clone(), 2);
		if lvl == at {
			// an attacker's key with the same tag as the good one, signing the data, ineligible in one way
			let mut e = with_tag(Key::ed25519(rng.next()), k.tag(), rng.next());
			match which {
				0 => { what = "without the zone flag"; e.flags &= !0x100; },
				1 => { what = "with another protocol"; e.proto = 2; },
				_ => { what = "not in the key set"; },
			}
			z.keys.push(e);
			z.zone_signers = vec![1];
		}
		if lvl == 1 { let o = z.apex.child("data"); z.sets.insert((o, TXT), vec![RD::Txt(b"data".to_vec())]); }
		if lvl == 0 { let o = Nm::new("here."); z.sets.insert((o, A), vec![RD::A([1, 1, 1, 1])]); }
	});
	let mut w = w;
	if which == 2 {
		let bad = w.zones[at].keys.pop().unwrap();
		w.zones[at].zone_signers = vec![0];
		let z = &w.zones[at];
		let (o, t) = if at == 1 { (z.apex.child("data"), TXT) } else { (Nm::new("here."), A) };
		let mut s = w.set(at, &o, t);
		let mut sig = make_sig(&bad, &z.apex, &o, &s.rds, t, 300, NOW - 10, NOW + 10);
		sig.tag = z.keys[0].tag();
		s.sigs = vec![sig];
		w.put(s);
	}
	let a = w.answer(&Nm::new("data.z."), TXT).unwrap();
	let b = w.answer(&Nm::new("here."), A).unwrap();
	let mut p = w.proof(&[&a, &b]);
	rng.shuffle(&mut p);
	c.artifact("what is wrong", format!("data of {} signed by a key {}", apexes[at], what));
	c.artifact("proof", show(&p));
	c.nontrivial(fp(&p));
	c.count(&format!("shared tag, key {}", what));
	if let Ok(v) = verify(c, &w, &p)? { for r in v.recs.iter() { ensure!(!(if at == 1 { r.name == Nm::new("data.z.") } else { true }), "verified {} although it was signed by a key {}", r, what); } }
	Ok(())
}

// ---------------------------------------------------------------- C08

/// All results following redirects may give where the rules leave a choice: the records at every name reached at which
/// nothing redirects, and nothing at all if there is a way to go in circles, to outgrow a name, or to go on for very long
pub fn resolve_model(recs: &BTreeSet<Rec>, name: &Nm) -> Vec<BTreeSet<Rec>> {
	let mut to: BTreeMap<Nm, Vec<Nm>> = BTreeMap::new();
	let mut todo = vec![name.clone()];
	let (mut stuck, mut out) = (false, BTreeSet::new());
	while let Some(n) = todo.pop() {
		if to.contains_key(&n) { continue; }
		if n.text_len() > 255 { stuck = true; continue; }
		if to.len() > 500 { return Vec::new(); } // too many ways to go
		let mut next: Vec<Nm> = recs.iter().filter(|r| r.name == n).filter_map(|r| if let RD::CName(t) = &r.rd { Some(t.clone()) } else { None }).collect();
		if next.is_empty() {
			next = recs.iter().filter(|r| n.under(&r.name)).filter_map(|r| if let RD::DName(t) = &r.rd {
				let mut l = n.0[..n.n() - r.name.n()].to_vec();
				l.extend(t.0.iter().cloned());
				Some(Nm(l))
			} else { None }).collect();
		}
		if next.is_empty() { out.insert(recs.iter().filter(|r| r.name == n).cloned().collect()); }
		todo.extend(next.iter().cloned());
		to.insert(n, next);
	}
	if to.len() > recs.len() + 100 { stuck = true; }
	if !stuck {
		// a circle is what remains after taking away, again and again, the names that lead nowhere (else)
		let mut left: BTreeMap<&Nm, &Vec<Nm>> = to.iter().collect();
		loop {
			let done: Vec<&Nm> = left.iter().filter(|(_, v)| v.iter().all(|t| !left.contains_key(t))).map(|(k, _)| *k).collect();
			if done.is_empty() { break; }
			for d in done { left.remove(d); }
		}
		stuck = !left.is_empty();
	}
	if stuck { out.insert(BTreeSet::new()); }
	out.into_iter().collect()
}
fn c08_graph(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	// few labels, so that names meet often
	let pool: &[&str] = *rng.pick(&[&["a", "b"][..], &["a", "b", "aa", "ba"], &["x", "notx", "c"], &["a", "*"], &["*", "b", "_x"], &["a", "long-label-long-label-long-label-long-label-long-label-long-la1"]]);
	let deep = rng.range(1, 4);
	let name = |rng: &mut Rng| { let mut n = Nm::root(); for _ in 0..rng.range(0, deep) { let m = n.child(*rng.pick(pool)); if m.text_len() <= 255 { n = m; } } n };
	let mut set: BTreeSet<Rec> = BTreeSet::new();
	let n = rng.range(1, 10);
	let unique = rng.chance(4, 5);
	for _ in 0..n {
		let o = name(&mut rng);
		match rng.below(7) {
			0 | 1 | 2 => {
				if unique && set.iter().any(|r| r.name == o && r.ty() == CNAME) { continue; }
				let t = name(&mut rng);
				set.insert(Rec::new(&o, RD::CName(t)));
			},
			3 | 4 => {
				if unique && set.iter().any(|r| r.name == o && r.ty() == DNAME) { continue; }
				let t = name(&mut rng);
				set.insert(Rec::new(&o, RD::DName(t)));
			},
			5 => { let b = rng.byte(); set.insert(Rec::new(&o, RD::A([b, 0, 0, 1]))); },
			_ => { let b = rng.byte(); set.insert(Rec::new(&o, RD::Txt(vec![b, b]))); },
		}
	}
	let mut list: Vec<Rec> = set.iter().cloned().collect();
	rng.shuffle(&mut list);
	let rrs: Vec<RR> = list.iter().map(|r| r.lib()).collect();
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 0 };
	c.artifact("verified records", show(&list));
	for _ in 0..8 {
		let mut q = name(&mut rng);
		if rng.chance(1, 4) { let m = q.child(*rng.pick(pool)); if m.text_len() <= 255 { q = m; } }
		let qn = q.lib();
		c.artifact("query", q.text());
		c.eval();
		c.nontrivial(fnv(format!("{}{}", q, fp(&list)).as_bytes()));
		let res = guard_lim("resolve_name", 5_000_000, || v.resolve_name(&qn))?.value;
		for r in res.iter() { ensure!(rrs.iter().any(|x| std::ptr::eq(x, *r)), "returned a record that is not one of the verified ones"); }
		let got: BTreeSet<Rec> = res.iter().map(|r| Rec::from_lib(r)).collect();
		ensure!(got.len() == res.len(), "returned a record twice");
		let may = resolve_model(&set, &q);
		if may.is_empty() { c.count("resolutions_with_too_many_choices"); continue; }
		ensure!(may.contains(&got), "resolving {} gave\n{}instead of\n{}", q, show(&got.iter().cloned().collect::<Vec<_>>()), show(&may[0].iter().cloned().collect::<Vec<_>>()));
		c.count(if got.is_empty() { "resolutions_empty" } else { "resolutions_with_records" });
		if may.len() == 1 {
			let direct: BTreeSet<Rec> = set.iter().filter(|r| r.name == q).cloned().collect();
			if direct != got { c.count("resolutions_redirected"); }
		}
	}
	Ok(())
}
/// Long chains and redirects that grow or shrink names around the length limit
fn c08_long(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut list = Vec::new();
	let q;
	if rng.chance(1, 2) {
		let n = rng.range(1, 300);
		for i in 0..n { list.push(Rec::new(&Nm::new(&format!("n{}.t.", i)), RD::CName(Nm::new(&format!("n{}.t.", i + 1))))); }
		if rng.chance(1, 3) { list.push(Rec::new(&Nm::new(&format!("n{}.t.", n)), RD::CName(Nm::new(&format!("n{}.t.", rng.below(n)))))); }
		let many = if rng.chance(1, 2) { 1 } else { rng.range(2, 300) };
		for i in 0..many { list.push(Rec::new(&Nm::new(&format!("n{}.t.", n)), RD::A([1, 2, (i >> 8) as u8, i as u8]))); }
		if many > 1 { c.count("names_with_many_records"); }
		if rng.chance(1, 3) { for i in 0..rng.range(1, 300) { list.push(Rec::new(&Nm::new(&format!("other{}.t.", i)), if rng.chance(1, 2) { RD::DName(Nm::new("n0.t.")) } else { RD::A([9, 9, 9, 9]) })); } }
		q = Nm::new("n0.t.");
		c.count("long_cname_chains");
	} else {
		// a DNAME whose target makes the name about 255 long
		let l = "x".repeat(63);
		let mut t = Nm::new("y.");
		for _ in 0..rng.range(0, 3) { t = t.child(&l); }
		let room = 255 - t.text_len();
		let k = rng.range(1, 62.min(room));
		let extra = rng.below(4);
		let mut pre = Nm::new("d.").child(&"q".repeat(k));
		if extra > 0 && pre.text_len() + 60 < 250 { pre = pre.child(&"r".repeat(rng.range(1, 60))); }
		list.push(Rec::new(&Nm::new("d."), RD::DName(t.clone())));
		let mut to = pre.0[..pre.n() - 1].to_vec();
		to.extend(t.0.iter().cloned());
		let to = Nm(to);
		if to.text_len() <= 255 { list.push(Rec::new(&to, RD::Txt(b"there".to_vec()))); c.count("dname_to_valid_name"); } else { c.count("dname_to_overlong_name"); }
		list.push(Rec::new(&t, RD::Txt(b"not this".to_vec())));
		q = pre;
	}
	rng.shuffle(&mut list);
	let set: BTreeSet<Rec> = list.iter().cloned().collect();
	let rrs: Vec<RR> = list.iter().map(|r| r.lib()).collect();
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 0 };
	c.artifact("verified records", show(&list));
	c.artifact("query", q.text());
	c.eval();
	c.nontrivial(fp(&list));
	let qn = q.lib();
	let res = guard_lim("resolve_name", 5_000_000, || v.resolve_name(&qn))?.value;
	let got: BTreeSet<Rec> = res.iter().map(|r| Rec::from_lib(r)).collect();
	let may = resolve_model(&set, &q);
	if !may.is_empty() { ensure!(may.contains(&got), "resolving {} gave {:?} instead of {:?}", q, got.len(), may[0].len()); }
	Ok(())
}

// ---------------------------------------------------------------- Known findings

/// A root zone with one key, its key set, and the given set with the signature made over the octets given
fn probe_world() -> (World, Key, Vec<Rec>) {
	let mut rng = Rng::new(1, "probe", 0);
	let w = World::chain(&mut rng, &[Nm::root()], |_, z, rng| { let k = Key::ed25519(rng.next() >> 1); z.simple_key(k, 2); });
	let k = w.zones[0].keys[0].clone();
	let chain = w.chain_sets(0).iter().flat_map(|s| s.recs()).collect();
	(w, k, chain)
}
/// Signs exactly this record data, as a zone would that has it in this form
fn sign_raw(key: &Key, owner: &Nm, signed_owner: &Nm, ty: u16, raw: &[u8]) -> Rec {
	let labels = signed_owner.n() as u8 - signed_owner.is_wild() as u8;
	let mut s = Sig { ty, alg: key.alg, labels, ttl: 3600, exp: 1_800_000_000, inc: 1_600_000_000, tag: key.tag(), signer: Nm::root(), sig: Vec::new() };
	let mut d = s.head();
	d.extend(signed_owner.wire());
	d.extend(ty.to_be_bytes());
	d.extend([0, 1]);
	d.extend(3600u32.to_be_bytes());
	d.extend((raw.len() as u16).to_be_bytes());
	d.extend(raw);
	s.sig = key.sign(&d);
	Rec::new(owner, RD::RRSig(s))
}
/// Parses the wire form of a record, which may be one the library does not write
fn parse_raw(owner: &Nm, ty: u16, raw: &[u8]) -> Result<Vec<RR>, Viol> {
	let mut b = owner.wire();
	b.extend(ty.to_be_bytes());
	b.extend([0, 1, 0, 0, 0, 60]);
	b.extend((raw.len() as u16).to_be_bytes());
	b.extend(raw);
	guard("parse_rr_stream", || dnssec_prover::ser::parse_rr_stream(&b))?.map_err(|_| Viol(format!("a valid record of type {} at {} was refused", ty, owner)))
}
fn probe_verify(w: &World, mut rrs: Vec<RR>, chain: &[Rec], more: &[Rec]) -> Result<Option<ValidationError>, Viol> {
	rrs.extend(chain.iter().chain(more.iter()).map(|r| r.lib()));
	set_anchors(w.anchors());
	Ok(guard("verify_rr_stream", || verify_rr_stream(&rrs).map(|_| ()).err())?)
}
fn probe_txt_chunks() -> Result<Option<String>, Viol> {
	let (w, k, chain) = probe_world();
	let owner = Nm::new("t.");
	for (raw, odd) in [(b"\x06abcdef".to_vec(), false), (b"\x03abc\x03def".to_vec(), true)] {
		let e = probe_verify(&w, parse_raw(&owner, TXT, &raw)?, &chain, &[sign_raw(&k, &owner, &owner, TXT, &raw)])?;
		match (odd, e) {
			(_, None) => {},
			(false, Some(e)) => viol!("a signed TXT record with the string \"abcdef\" was refused: {:?}", e),
			(true, Some(e)) => return Ok(Some(format!("a signed TXT record with the strings \"abc\" \"def\": {:?}", e))),
		}
	}
	Ok(None)
}
fn probe_nsec_case() -> Result<Option<String>, Viol> {
	let (w, k, chain) = probe_world();
	for (next, upper) in [(&b"\x01z\x00"[..], false), (b"\x01Z\x00", true)] {
		let mut raw = next.to_vec();
		raw.extend(bitmap(&[A].into_iter().collect()));
		let (wild, at, owner) = (Nm::new("*."), Nm::new("n."), Nm::new("m."));
		let mut rrs = parse_raw(&owner, NSEC, &raw)?;
		let a = [1u8, 2, 3, 4];
		rrs.extend(parse_raw(&at, A, &a)?);
		let e = probe_verify(&w, rrs, &chain, &[sign_raw(&k, &owner, &owner, NSEC, &raw), sign_raw(&k, &at, &wild, A, &a)])?;
		match (upper, e) {
			(_, None) => {},
			(false, Some(e)) => viol!("a wildcard proof with NSEC was refused: {:?}", e),
			(true, Some(e)) => return Ok(Some(format!("a wildcard proof whose signed NSEC record says that the next name is \"Z.\": {:?}", e))),
		}
	}
	Ok(None)
}
fn probe_nsec_last() -> Result<Option<String>, Viol> {
	let (w, k, chain) = probe_world();
	for (next, last) in [(&b"\x01z\x00"[..], false), (b"\x00", true)] {
		let mut raw = next.to_vec();
		raw.extend(bitmap(&[A].into_iter().collect()));
		let (wild, at, owner) = (Nm::new("*."), Nm::new("n."), Nm::new("m."));
		let mut rrs = parse_raw(&owner, NSEC, &raw)?;
		let a = [1u8, 2, 3, 4];
		rrs.extend(parse_raw(&at, A, &a)?);
		let e = probe_verify(&w, rrs, &chain, &[sign_raw(&k, &owner, &owner, NSEC, &raw), sign_raw(&k, &at, &wild, A, &a)])?;
		match (last, e) {
			(_, None) => {},
			(false, Some(e)) => viol!("a wildcard proof with NSEC was refused: {:?}", e),
			(true, Some(e)) => return Ok(Some(format!("a wildcard proof for \"n.\" with the last NSEC record of the zone, from \"m.\" to \".\": {:?}", e))),
		}
	}
	Ok(None)
}

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C01", rule: "Each case generates a signed DNS (2-6 zones, NSEC/NSEC3, wildcards, delegations) and either changes a correct proof (1-3 random edits), \
				lets the owner of one delegated zone attack names elsewhere by one of 15 strategies, or mixes two signed versions of a set. Every record returned is judged against the truth \
				of that DNS: the set its zone published, whole. Non-trivial: a distinct record list that was verified.",
			phases: vec![Phase::new("attack", 1500, 60_000, c01_attack), Phase::new("mutate", 1000, 60_000, c01_mutate), Phase::new("mix", 500, 20_000, c01_mix)],
			required: &["attack: delegation of a wildcard used elsewhere", "records_judged_authentic", "changed_proofs_still_accepted", "mixtures_rejected", "one_version_verified_whole"],
			assumptions: &["ring's signature verification and the harness's own signing agree on the algorithms' definitions", "signatures cannot be forged by chance"],
			known: vec![],
		},
		Check {
			id: "C02", rule: "Each case generates a signed DNS with wildcards and replays every wildcard set at existing names, names below them, empty non-terminals, delegated and foreign names and \
				names that do not exist, with all or some of the denial records of all zones and those an attacker zone makes up. Accepted expansions are judged against the truth. \
				Non-trivial: distinct wildcard, name, type and DNS.",
			phases: vec![Phase::new("small", 1500, 40_000, c02_small), Phase::new("multi", 1500, 60_000, c02_multi), Phase::new("replay", 250, 8_000, c02_replay)],
			required: &["several_expansions_accepted", "several_expansions_rejected_for_some", "denial that proves nothing: unknown hash", "expansions_accepted", "false_expansions_rejected"],
			assumptions: &["SHA-1 collisions of NSEC3 hashes do not happen by chance"],
			known: vec![],
		},
		Check {
			id: "C03", rule: "Each case generates a signed DNS over all supported algorithms, digests, key layouts, types and set sizes and proves 1-4 names of it, in random record order; verification must \
				succeed, return exactly the proven records and resolve the names exactly. Non-trivial: a distinct record list.",
			phases: vec![Phase::new("algs", 250, 5000, c03_algs), Phase::new("order", 1500, 60_000, c03_order), Phase::new("collide", 500, 20_000, c03_collide), Phase::new("cuts", 300, 8000, c03_cuts), Phase::new("star", 200, 6000, c03_star), Phase::new("many", 200, 6000, c03_many), Phase::new("accept", 1500, 50_000, c03_accept)],
			required: &["zones_at_wildcard_names", "many keys", "many delegation records", "many signatures", "many records", "many zones in a row", "many names", "many uses of a wildcard", "many aliases", "many zones side by side", "many labels", "very long records", "the largest RSA key", "both_denial_records_of_a_zone_cut", "proofs_with_signatures_of_unpublished_keys", "same tag, other algorithm", "same tag, other protocol", "same tag, not a zone key", "names_resolved_exactly", "accepted with algorithm 8", "accepted with algorithm 10", "accepted with algorithm 13", "accepted with algorithm 14",
				"accepted with algorithm 15", "wildcards with NSEC", "wildcards with NSEC3", "wildcards with the last NSEC3", "proofs with further, unusable denial records", "delegation digest type 1", "delegation digest type 2"],
			assumptions: &[],
			known: vec![("txt-chunks", probe_txt_chunks), ("nsec-case", probe_nsec_case), ("nsec-last", probe_nsec_last)],
		},
		Check {
			id: "C04", rule: "Each case proves names of a signed DNS in which every set has one signature, with times from ordinary ranges, around the 2106 rollover, or clashing, or with one signature at a \
				time out of step; window and lifetime must be exactly those of the signatures. Non-trivial: a distinct record list.",
			phases: vec![Phase::new("window", 2500, 80_000, c04_window), Phase::new("each", 300, 10_000, c04_each)],
			required: &["windows_of_a_second_or_two", "empty_windows_rejected", "windows_exact", "windows_across_the_rollover", "windows_with_denial_records", "disjoint_windows_rejected"],
			assumptions: &["times within ten days of the 1997 cutoff are not generated"],
			known: vec![],
		},
		Check {
			id: "C05", rule: "Each case builds a chain twice from one seed: once correct (control, must verify) and once with one ineligible element (key flags, protocol, tags, algorithms, digests) as the \
				only thing to rely on at one place; nothing resting on it may be verified. Non-trivial: a distinct record list.",
			phases: vec![Phase::new("one", 2500, 80_000, c05_one), Phase::new("tags", 500, 20_000, c05_tags), Phase::new("types", 2000, 80_000, c05_types)],
			required: &["ineligible_chains_refused", "shared tag, key without the zone flag"],
			assumptions: &[],
			known: vec![],
		},
		Check {
			id: "C06", rule: "Each case verifies one correct proof in sorted, reversed and random orders, twice each, and with records added that nothing vouches for; verdict, records, window and lifetime \
				must be the same. Non-trivial: a distinct record list.",
			phases: vec![Phase::new("permute", 700, 30_000, c06_permute)],
			required: &["same_in_another_order", "same_with_unrelated_records"],
			assumptions: &[],
			known: vec![],
		},
		Check {
			id: "C08", rule: "Each case builds a random graph of CNAME, DNAME and data records over few names (so that loops, shared endings and nested redirects abound) or a long chain or a name near \
				the length limit, and compares resolution with an independent model. Non-trivial: a distinct graph and query.",
			phases: vec![Phase::new("graph", 14_000, 1_000_000, c08_graph), Phase::new("long", 3000, 100_000, c08_long)],
			required: &["names_with_many_records", "resolutions_empty", "resolutions_with_records", "resolutions_redirected", "dname_to_overlong_name", "dname_to_valid_name", "long_cname_chains"],
			assumptions: &["several CNAMEs at one name, or nested DNAMEs, leave a choice which the model allows"],
			known: vec![],
		},
	]
}

#[allow(unused)]
fn unused(_: BTreeMap<u8, u8>) {}
