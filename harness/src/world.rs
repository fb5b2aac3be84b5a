//! A synthetic signed DNS: zones, keys, delegations, wildcards and denial chains, made and signed here, with the ground
//! truth about every name. The library sees only the resulting records.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

use crate::dns::*;
use crate::keys::*;
use crate::util::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Denial { Nsec, Nsec3 { iter: u16, salt: Vec<u8>, optout: bool } }

#[derive(Clone)]
pub struct Zone {
	pub apex: Nm,
	pub parent: Option<usize>,
	pub keys: Vec<Key>,
	/// Keys that sign the key set
	pub key_signers: Vec<usize>,
	/// Keys that sign everything else
	pub zone_signers: Vec<usize>,
	/// Keys which sign everything, but are not (any longer, or yet) in the key set
	pub stale: Vec<Key>,
	/// The delegation in the parent (the trust anchors for the root)
	pub ds: Vec<RD>,
	pub sets: BTreeMap<(Nm, u16), Vec<RD>>,
	pub insecure: BTreeSet<Nm>,
	pub children: BTreeSet<Nm>,
	pub denial: Denial,
	pub attacker: bool,
	/// Everything that exists in the zone, including delegations and empty non-terminals
	pub exists: BTreeSet<Nm>,
	/// NSEC3 records in a form nobody can make sense of: 1: of an unknown hash algorithm, 2: hashes too short or long
	pub odd_nsec3: u8,
	/// The complete denial chain
	pub chain: Vec<(Nm, RD)>,
}

#[derive(Clone, Debug)]
pub struct Set { pub owner: Nm, pub ty: u16, pub rds: Vec<RD>, pub sigs: Vec<Sig>, pub zone: usize }
impl Set {
	/// Its records under a name (the owner's, or one the wildcard owner is expanded to)
	pub fn recs_at(&self, name: &Nm) -> Vec<Rec> {
		let mut o: Vec<Rec> = self.rds.iter().map(|rd| Rec::new(name, rd.clone())).collect();
		o.extend(self.sigs.iter().map(|s| Rec::new(name, RD::RRSig(s.clone()))));
		o
	}
	pub fn recs(&self) -> Vec<Rec> { self.recs_at(&self.owner) }
}

/// A set as used in an answer: at which name, and the denial that lets a wildcard be used there
#[derive(Clone, Debug)]
pub struct Use { pub set: Set, pub at: Nm, pub denial: Vec<Set>, pub wrap: bool, pub optout: bool }

#[derive(Clone, Debug, Default)]
pub struct Answer { pub uses: Vec<Use>, pub target: Option<Nm>, pub synth: Vec<Rec> }

#[derive(Clone)]
pub struct Times { pub inc: (u32, u32), pub exp: (u32, u32), pub ttl: (u32, u32), pub inc2: Option<(u32, u32)>, pub exp2: Option<(u32, u32)> }
pub const NOW: u32 = 1_750_000_000;
impl Default for Times { fn default() -> Times { Times { inc: (NOW - 1_000_000, NOW - 1), exp: (NOW + 1, NOW + 1_000_000), ttl: (1, 86_400), inc2: None, exp2: None } } }

pub struct World {
	pub zones: Vec<Zone>,
	pub times: Times,
	seed: u64,
	pub cache: RefCell<HashMap<(usize, Nm, u16), Set>>,
}

#[derive(Clone)]
pub struct Cfg {
	pub zones: (usize, usize),
	pub names: (usize, usize),
	pub algs: Vec<u8>,
	/// Chances in percent
	pub wildcard: usize,
	pub nsec3: usize,
	pub odd_nsec3: usize,
	pub optout: usize,
	pub insecure: usize,
	pub attacker: usize,
	pub cname: usize,
	pub dname: usize,
	pub unsupported: usize,
	pub multi_sig: usize,
	pub sha1: usize,
	pub big_sets: bool,
	/// A key that no delegation vouches for signs the key set, too
	pub zsk_signs_keys: usize,
	/// Zones rather below the deepest one, and deeper
	pub tall: bool,
}
impl Cfg {
	/// Only fast keys, lots of structure
	pub fn fast() -> Cfg {
		Cfg { zones: (2, 5), names: (2, 7), algs: vec![15, 15, 15, 13], wildcard: 60, nsec3: 50, odd_nsec3: 0, optout: 0, insecure: 15, attacker: 0, cname: 15,
			dname: 10, unsupported: 0, multi_sig: 0, sha1: 10, big_sets: false, zsk_signs_keys: 0, tall: false }
	}
	pub fn rich() -> Cfg {
		Cfg { algs: vec![15, 15, 13, 13, 14, 8, 10], unsupported: 15, multi_sig: 25, sha1: 25, big_sets: true, zsk_signs_keys: 20, ..Cfg::fast() }
	}
}

pub const LABELS: [&str; 42] = ["a", "b", "c", "o", "z", "aa", "ab", "a-b", "a!b", "-", "--", "_tcp", "_25", "*x", "x*", "!", "~", "a~", "0", "00", "zz",
	"override", "www", "mail", "user", "_bitcoin-payment", "txt", "wild", "a+", "a,b", "com", "evil", "notevil", "xn--p1ai", "\\", "\\065", "$", "a'b",
	"{}", "#", "'", "long-label-long-label-long-label-long-label-long-label-long-la1"];

impl World {
	pub fn gen(rng: &mut Rng, cfg: &Cfg) -> World {
		let mut w = World { zones: Vec::new(), times: Times::default(), seed: rng.next(), cache: Default::default() };
		let nz = rng.range(cfg.zones.0, cfg.zones.1).max(1);
		let mut apexes = vec![Nm::root()];
		let mut tries = 0;
		while apexes.len() < nz && tries < 200 {
			tries += 1;
			// Mostly direct children of some zone, sometimes skipping a label, sometimes one whose name merely ends alike
			let p = if cfg.tall && rng.chance(3, 4) { apexes.iter().max_by_key(|a| a.n()).unwrap().clone() } else { rng.pick(&apexes).clone() };
			let mut a = match rng.below(10) {
				0 | 1 if apexes.len() > 1 => {
					let o = rng.pick(&apexes[1..]).clone();
					let mut l = o.0.clone();
					let mut first = rng.pick(&[&b"not"[..], b"a", b"-", b"x"]).to_vec();
					first.extend(&l[0]);
					if first.len() > 63 { continue; }
					l[0] = first;
					Nm(l)
				},
				2 => p.child(*rng.pick(&LABELS)).child(*rng.pick(&LABELS)),
				_ => p.child(*rng.pick(&LABELS)),
			};
			if a.is_wild() { a = a.parent(); }
			if a.n() == 0 || a.n() > if cfg.tall { 9 } else { 4 } || a.text_len() > 160 || apexes.contains(&a) { continue; }
			apexes.push(a);
		}
		apexes[1..].sort_by_key(|a| a.n());
		for (i, apex) in apexes.iter().enumerate() {
			let parent = (0..i).filter(|p| apex.under(&apexes[*p])).max_by_key(|p| apexes[*p].n());
			let attacker = i > 0 && rng.chance(cfg.attacker, 100);
			let denial = if rng.chance(cfg.nsec3, 100) {
				Denial::Nsec3 {
					iter: if rng.chance(1, 40) { 2500 } else { *rng.pick(&[0, 0, 0, 1, 2, 10, 50]) }, salt: { let n = *rng.pick(&[0, 0, 1, 8, 20]); rng.bytes(n) },
					optout: rng.chance(cfg.optout, 100),
				}
			} else { Denial::Nsec };
			let mut z = Zone {
				apex: apex.clone(), parent, keys: Vec::new(), key_signers: Vec::new(), zone_signers: Vec::new(), stale: Vec::new(), ds: Vec::new(), sets: BTreeMap::new(),
				insecure: BTreeSet::new(), children: BTreeSet::new(), denial, attacker, exists: BTreeSet::new(), odd_nsec3: 0, chain: Vec::new(),
			};
			if cfg.odd_nsec3 > 0 && rng.chance(cfg.odd_nsec3, 100) { z.odd_nsec3 = 1 + rng.below(5) as u8; }
			z.make_keys(rng, cfg);
			w.zones.push(z);
			if let Some(p) = parent { w.zones[p].children.insert(apex.clone()); }
		}
		// Data
		for i in 0..w.zones.len() {
			let apex = w.zones[i].apex.clone();
			let n = rng.range(cfg.names.0, cfg.names.1);
			if rng.chance(1, 2) { let rds = gen_rds(rng, NS, cfg.big_sets, &w); w.zones[i].sets.insert((apex.clone(), NS), rds); }
			for _ in 0..n {
				let base = if rng.chance(1, 3) {
					// near or below something that is there already
					let v: Vec<Nm> = w.zones[i].sets.keys().map(|k| k.0.clone()).chain(w.zones[i].children.iter().cloned()).collect();
					if v.is_empty() { apex.clone() } else { let b = rng.pick(&v).clone(); if b.n() > apex.n() && rng.chance(1, 2) { b.parent() } else { b } }
				} else { apex.clone() };
				let mut name = base;
				for _ in 0..*rng.pick(&[0, 1, 1, 1, 1, 2, 2, 3]) { name = name.child(*rng.pick(&LABELS)); }
				if rng.chance(cfg.wildcard, 200) && !name.is_wild() { name = name.child("*"); }
				if rng.chance(cfg.insecure, 300) && name.n() > apex.n() && !name.is_wild() {
					if w.free_for(i, &name, true) { w.zones[i].insecure.insert(name); }
					continue;
				}
				if name.text_len() > 200 || !w.free_for(i, &name, false) { continue; }
				let has = w.zones[i].sets.keys().any(|(n, _)| *n == name);
				let exclusive = w.zones[i].sets.contains_key(&(name.clone(), CNAME));
				if exclusive { continue; }
				let ty = if !has && name != apex && rng.chance(cfg.cname, 100) { CNAME }
					else if !name.is_wild() && name != apex && rng.chance(cfg.dname, 100) {
						// nothing may live below a DNAME
						if w.zones[i].names().any(|n| n.under(&name)) { TXT } else { DNAME }
					} else { *rng.pick(&[TXT, TXT, A, AAAA, TLSA, TXT, A]) };
				if w.zones[i].sets.contains_key(&(name.clone(), ty)) { continue; }
				let rds = gen_rds(rng, ty, cfg.big_sets, &w);
				w.zones[i].sets.insert((name, ty), rds);
			}
		}
		for z in w.zones.iter_mut() { z.finish(); }
		w
	}
	/// A small fixed shape: a chain of zones down to `apex`, the last holding the sets given
	pub fn chain(rng: &mut Rng, apexes: &[Nm], mut mk: impl FnMut(usize, &mut Zone, &mut Rng)) -> World {
		let mut w = World { zones: Vec::new(), times: Times::default(), seed: rng.next(), cache: Default::default() };
		for (i, apex) in apexes.iter().enumerate() {
			let parent = (0..i).filter(|p| apex.under(&apexes[*p])).max_by_key(|p| apexes[*p].n());
			let mut z = Zone {
				apex: apex.clone(), parent, keys: Vec::new(), key_signers: Vec::new(), zone_signers: Vec::new(), stale: Vec::new(), ds: Vec::new(), sets: BTreeMap::new(),
				insecure: BTreeSet::new(), children: BTreeSet::new(), denial: Denial::Nsec, attacker: false, exists: BTreeSet::new(), odd_nsec3: 0, chain: Vec::new(),
			};
			mk(i, &mut z, rng);
			w.zones.push(z);
			if let Some(p) = parent { w.zones[p].children.insert(apex.clone()); }
		}
		for z in w.zones.iter_mut() { z.finish(); }
		w
	}
	pub fn empty() -> World { World { zones: Vec::new(), times: Times::default(), seed: 0, cache: Default::default() } }
	pub fn free_for(&self, zi: usize, name: &Nm, cut: bool) -> bool {
		let z = &self.zones[zi];
		if !name.under_eq(&z.apex) { return false; }
		if z.children.iter().chain(z.insecure.iter()).any(|c| name.under_eq(c) || (cut && c.under(name))) { return false; }
		if z.sets.iter().any(|((n, t), _)| *t == DNAME && name.under(n)) { return false; }
		if cut && (name == &z.apex || z.names().any(|n| n.under_eq(name))) { return false; }
		true
	}
	/// The signed set of a zone, as published
	pub fn set(&self, zi: usize, owner: &Nm, ty: u16) -> Set {
		let k = (zi, owner.clone(), ty);
		if let Some(s) = self.cache.borrow().get(&k) { return s.clone(); }
		let rds = self.rds(zi, owner, ty).unwrap_or_else(|| panic!("no {} set at {}", ty, owner));
		let s = self.sign(zi, owner, ty, rds);
		self.cache.borrow_mut().insert(k, s.clone());
		s
	}
	pub fn forget(&self) { self.cache.borrow_mut().clear(); }
	pub fn put(&self, s: Set) { self.cache.borrow_mut().insert((s.zone, s.owner.clone(), s.ty), s); }
	/// Signs a set as the zone would
	pub fn sign(&self, zi: usize, owner: &Nm, ty: u16, rds: Vec<RD>) -> Set {
		let z = &self.zones[zi];
		let mut r = Rng::new(self.seed, &owner.text(), (zi as u64) << 16 | ty as u64);
		let ttl = in_range(&mut r, self.times.ttl);
		let signers = if ty == DNSKEY { &z.key_signers } else { &z.zone_signers };
		let sigs = signers.iter().map(|k| {
			let t = &self.times;
			let one = |r: &mut Rng, a: (u32, u32), b: Option<(u32, u32)>| match b { Some(b) if r.chance(1, 2) => in_range(r, b), _ => in_range(r, a) };
			let (inc, exp) = (one(&mut r, t.inc, t.inc2), one(&mut r, t.exp, t.exp2));
			make_sig(&z.keys[*k], &z.apex, owner, &rds, ty, ttl, inc, exp)
		}).collect::<Vec<Sig>>();
		let mut sigs = sigs;
		for k in z.stale.iter() {
			let sig = make_sig(k, &z.apex, owner, &rds, ty, ttl, in_range(&mut r, self.times.inc), in_range(&mut r, self.times.exp));
			if r.chance(1, 2) { sigs.push(sig) } else { sigs.insert(0, sig) }
		}
		Set { owner: owner.clone(), ty, rds, sigs, zone: zi }
	}
	pub fn zone_at(&self, apex: &Nm) -> Option<usize> { self.zones.iter().position(|z| z.apex == *apex) }
	/// The deepest zone whose apex encloses the name
	pub fn zone_of(&self, name: &Nm) -> usize { (0..self.zones.len()).filter(|i| name.under_eq(&self.zones[*i].apex)).max_by_key(|i| self.zones[*i].apex.n()).unwrap() }
	pub fn rds(&self, zi: usize, owner: &Nm, ty: u16) -> Option<Vec<RD>> {
		let z = &self.zones[zi];
		match ty {
			DNSKEY if *owner == z.apex => Some(z.keys.iter().map(|k| k.rd()).collect()),
			DS => { let c = self.zone_at(owner)?; if self.zones[c].parent == Some(zi) { Some(self.zones[c].ds.clone()) } else { None } },
			NSEC | NSEC3 => z.chain.iter().find(|(o, rd)| o == owner && rd.ty() == ty).map(|(_, rd)| vec![rd.clone()]),
			_ => z.sets.get(&(owner.clone(), ty)).cloned(),
		}
	}
	pub fn anchors(&self) -> Vec<dnssec_prover::rr::DS> {
		self.zones[0].ds.iter().map(|rd| match Rec::new(&Nm::root(), rd.clone()).lib() { dnssec_prover::rr::RR::DS(d) => d, _ => unreachable!() }).collect()
	}
	/// Key set and delegation of a zone and all its ancestors
	pub fn chain_sets(&self, zi: usize) -> Vec<Set> {
		let mut o = Vec::new();
		let mut i = zi;
		loop {
			o.push(self.set(i, &self.zones[i].apex.clone(), DNSKEY));
			match self.zones[i].parent {
				None => break,
				Some(p) => { o.push(self.set(p, &self.zones[i].apex.clone(), DS)); i = p; },
			}
		}
		o
	}
	/// What an authoritative server (and so a resolver) says about one name and type, without following redirects.
	/// None: there is no such data.
	pub fn lookup(&self, name: &Nm, ty: u16) -> Option<Use> {
		let zi = self.zone_of(name);
		let z = &self.zones[zi];
		if z.insecure.iter().any(|c| name.under_eq(c)) { return None; }
		let plain = |owner: &Nm, ty: u16| Use { set: self.set(zi, owner, ty), at: owner.clone(), denial: Vec::new(), wrap: false, optout: false };
		if z.exists.contains(name) {
			if z.sets.contains_key(&(name.clone(), ty)) || (ty == DNSKEY && *name == z.apex) { return Some(plain(name, ty)); }
			if z.sets.contains_key(&(name.clone(), CNAME)) { return Some(plain(name, CNAME)); }
			return None;
		}
		if let Some(((d, _), _)) = z.sets.iter().find(|((n, t), _)| *t == DNAME && name.under(n)) { return Some(plain(d, DNAME)); }
		let ce = z.closest_encloser(name);
		let w = ce.child("*");
		let ty = if z.sets.contains_key(&(w.clone(), ty)) { ty } else if z.sets.contains_key(&(w.clone(), CNAME)) { CNAME } else { return None };
		let nc = name.last(ce.n() + 1);
		let (owner, dty, wrap, optout) = z.covering(&nc)?;
		Some(Use { set: self.set(zi, &w, ty), at: name.clone(), denial: vec![self.set(zi, &owner, dty)], wrap, optout })
	}
	/// Follows redirects as a resolver does
	pub fn answer(&self, name: &Nm, ty: u16) -> Option<Answer> {
		let mut a = Answer::default();
		let mut cur = name.clone();
		let mut seen = BTreeSet::new();
		loop {
			if !seen.insert(cur.clone()) || seen.len() > 70 { return None; }
			let u = self.lookup(&cur, ty)?;
			let rd = u.set.rds[0].clone();
			let (sty, at) = (u.set.ty, u.at.clone());
			if !a.uses.iter().any(|v| v.at == u.at && v.set.ty == u.set.ty) { a.uses.push(u); }
			if sty == ty { a.target = Some(cur); return Some(a); }
			match rd {
				RD::CName(t) => cur = t,
				RD::DName(t) => {
					let mut l = cur.0[..cur.n() - at.n()].to_vec();
					l.extend(t.0.iter().cloned());
					let to = Nm(l);
					if to.text_len() > 250 { return None; }
					a.synth.push(Rec::new(&cur, RD::CName(to.clone())));
					cur = to;
				},
				_ => return None,
			}
		}
	}
	/// All records of a proof for the answers: every signed set once
	pub fn proof(&self, answers: &[&Answer]) -> Vec<Rec> {
		let mut out: Vec<Rec> = Vec::new();
		let mut seen = BTreeSet::new();
		let mut zones = BTreeSet::new();
		for a in answers { for u in a.uses.iter() {
			zones.insert(u.set.zone);
			if seen.insert((u.set.zone, u.at.clone(), u.set.ty)) { out.extend(u.set.recs_at(&u.at)); }
			for d in u.denial.iter() { zones.insert(d.zone); if seen.insert((d.zone, d.owner.clone(), d.ty)) { out.extend(d.recs()); } }
		} }
		if zones.is_empty() { zones.insert(0); }
		for z in zones { for s in self.chain_sets(z) { if seen.insert((s.zone, s.owner.clone(), s.ty)) { out.extend(s.recs()); } } }
		out
	}
	/// The data records a proof for the answers proves
	pub fn proven(&self, answers: &[&Answer]) -> BTreeSet<Rec> {
		answers.iter().flat_map(|a| a.uses.iter()).flat_map(|u| u.set.rds.iter().map(move |rd| Rec::new(&u.at, rd.clone()))).collect()
	}
	/// Ground truth: may this record ever be taken as authentic?
	pub fn legit(&self, rec: &Rec) -> Result<(), String> {
		if self.zones.iter().any(|z| z.attacker && rec.name.under_eq(&z.apex)) { return Ok(()); }
		let zi = self.zone_of(&rec.name);
		let z = &self.zones[zi];
		if matches!(rec.ty(), DS | DNSKEY | RRSIG | NSEC | NSEC3) { return Err("not a data record".into()); }
		if let Some(c) = z.insecure.iter().find(|c| rec.name.under_eq(c)) { return Err(format!("it lies in the unsigned delegation {}", c)); }
		if let Some(rds) = z.sets.get(&(rec.name.clone(), rec.ty())) { if rds.contains(&rec.rd) { return Ok(()); } }
		if z.exists.contains(&rec.name) { return Err(format!("zone {} has other data, or none, of that type at that name", z.apex)); }
		let ce = z.closest_encloser(&rec.name);
		let w = ce.child("*");
		match z.sets.get(&(w.clone(), rec.ty())) {
			Some(rds) if rds.contains(&rec.rd) => {
				let nc = rec.name.last(ce.n() + 1);
				match z.covering(&nc) {
					Some((_, _, _, true)) => Err("the only denial that covers the name is opt-out".into()),
					Some(_) => Ok(()),
					None => Err("nothing covers the name".into()),
				}
			},
			_ => Err(format!("zone {} has no such data: closest encloser is {}", z.apex, ce)),
		}
	}
	/// The whole set a record belongs to in the truth
	pub fn whole_set(&self, rec: &Rec) -> Option<Vec<Rec>> {
		if self.zones.iter().any(|z| z.attacker && rec.name.under_eq(&z.apex)) { return None; }
		let z = &self.zones[self.zone_of(&rec.name)];
		let owner = if z.exists.contains(&rec.name) { rec.name.clone() } else { z.closest_encloser(&rec.name).child("*") };
		z.sets.get(&(owner, rec.ty())).map(|rds| rds.iter().map(|rd| Rec::new(&rec.name, rd.clone())).collect())
	}
	/// Names worth asking about: everything there is, and things near it
	pub fn interesting_names(&self, rng: &mut Rng, n: usize) -> Vec<Nm> {
		let all: Vec<Nm> = self.zones.iter().flat_map(|z| z.exists.iter().cloned()).collect();
		let mut o = Vec::new();
		for _ in 0..n {
			let mut b = rng.pick(&all).clone();
			if b.is_wild() && rng.chance(4, 5) { b = b.parent(); }
			for _ in 0..*rng.pick(&[0, 0, 1, 1, 2]) { if b.text_len() < 180 { b = b.child(*rng.pick(&LABELS)); } }
			o.push(b);
		}
		o
	}
}

impl Zone {
	pub fn names(&self) -> impl Iterator<Item = &Nm> { self.sets.keys().map(|k| &k.0).chain(self.insecure.iter()).chain(self.children.iter()) }
	pub fn finish(&mut self) {
		let mut e = BTreeSet::new();
		e.insert(self.apex.clone());
		for n in self.names() { for k in self.apex.n()..=n.n() { e.insert(n.last(k)); } }
		self.exists = e;
		self.chain = self.denial_chain();
	}
	pub fn closest_encloser(&self, name: &Nm) -> Nm {
		(self.apex.n()..=name.n()).rev().map(|k| name.last(k)).find(|n| self.exists.contains(n)).unwrap()
	}
	pub fn simple_key(&mut self, k: Key, dt: u8) {
		let k = k.ksk();
		self.ds = vec![k.ds(&self.apex, dt)];
		self.keys = vec![k];
		self.key_signers = vec![0];
		self.zone_signers = vec![0];
	}
	pub fn make_keys(&mut self, rng: &mut Rng, cfg: &Cfg) {
		let attacker = self.attacker;
		let fresh = |rng: &mut Rng, have: &Vec<Key>| -> Key {
			loop {
				let alg = if attacker { 15 } else { *rng.pick(&cfg.algs) };
				let mut i = rng.next() >> 1;
				if alg == 13 { i %= 6; }
				let k = Key::of_alg(alg, i);
				let t = [k.tag(), k.clone().ksk().tag()];
				if have.iter().any(|h| h.pubkey == k.pubkey || t.contains(&h.tag())) { continue; }
				return k;
			}
		};
		self.keys.clear(); self.key_signers.clear(); self.zone_signers.clear(); self.ds.clear(); self.stale.clear();
		let mut dsed = Vec::new();
		match rng.below(6) {
			0 | 1 => { let k = fresh(rng, &self.keys); self.keys.push(if rng.chance(3, 4) { k.ksk() } else { k }); self.key_signers = vec![0]; self.zone_signers = vec![0]; dsed.push(0); },
			2 | 3 => {
				let k = fresh(rng, &self.keys).ksk(); self.keys.push(k);
				let k = fresh(rng, &self.keys); self.keys.push(k);
				self.key_signers = vec![0]; self.zone_signers = vec![1]; dsed.push(0);
			},
			4 => {
				let k = fresh(rng, &self.keys).ksk(); self.keys.push(k);
				for _ in 0..2 { let k = fresh(rng, &self.keys); self.keys.push(k); }
				self.key_signers = vec![0];
				self.zone_signers = if rng.chance(cfg.multi_sig, 100) { vec![1, 2] } else { vec![1 + rng.below(2)] };
				dsed.push(0);
			},
			_ => {
				for _ in 0..2 { let k = fresh(rng, &self.keys).ksk(); self.keys.push(k); }
				let k = fresh(rng, &self.keys); self.keys.push(k);
				self.key_signers = if rng.chance(cfg.multi_sig, 100) { vec![0, 1] } else { vec![0] };
				self.zone_signers = vec![2];
				dsed = if self.key_signers.len() == 2 || rng.chance(1, 2) { vec![0, 1] } else { vec![0] };
			},
		}
		if rng.chance(1, 6) {
			// keys published which are not, or not yet, used
			for _ in 0..rng.range(1, 4) { let k = fresh(rng, &self.keys); self.keys.push(if rng.chance(1, 3) { k.ksk() } else { k }); }
		}
		if rng.chance(1, 6) {
			// and such as are of no use at all
			for _ in 0..rng.range(1, 3) {
				let k = Key::useless(rng);
				if self.keys.iter().all(|h| h.pubkey != k.pubkey && h.tag() != k.tag() && h.clone().ksk().tag() != k.tag()) { self.keys.push(k); }
			}
		}
		if cfg.multi_sig > 0 && rng.chance(1, 5) {
			for _ in 0..rng.range(1, 2) {
				let k = fresh(rng, &self.keys);
				if self.stale.iter().all(|h| h.tag() != k.tag()) { self.stale.push(if rng.chance(1, 4) { k.ksk() } else { k }); }
			}
		}
		if rng.chance(cfg.zsk_signs_keys, 100) {
			for k in self.zone_signers.clone() { if !self.key_signers.contains(&k) { if rng.chance(1, 2) { self.key_signers.push(k) } else { self.key_signers.insert(0, k) } } }
		}
		if rng.chance(cfg.unsupported, 100) {
			let alg = *rng.pick(&[16, 12, 253, 5, 7, 3]);
			let mut k = Key::of_alg(alg, rng.next());
			while self.keys.iter().any(|h| h.tag() == k.tag() || h.tag() == k.clone().ksk().tag()) { k = Key::of_alg(alg, rng.next()); }
			let i = self.keys.len();
			self.keys.push(k.ksk());
			if rng.chance(1, 2) { self.key_signers.push(i) } else { self.key_signers.insert(0, i) }
			if rng.chance(1, 2) { self.zone_signers.push(i) } else { self.zone_signers.insert(0, i) }
			if rng.chance(1, 2) { dsed.push(i) } else { dsed.insert(0, i) }
		}
		let dts: &[u8] = if rng.chance(cfg.sha1, 100) { *rng.pick(&[&[1u8][..], &[1, 2], &[2, 1], &[2, 4], &[1, 2, 4]]) } else { &[2] };
		for k in dsed { for dt in dts { self.ds.push(self.keys[k].ds(&self.apex, *dt)); } }
	}
	/// Types at a name, as a denial record lists them
	fn types_at(&self, n: &Nm, nsec: bool) -> Types {
		let mut t: Types = self.sets.keys().filter(|k| k.0 == *n).map(|k| k.1).collect();
		if *n == self.apex { t.extend([SOA, NS, DNSKEY]); if !nsec { t.insert(51); } }
		if self.children.contains(n) { t.extend([NS, DS]); }
		if self.insecure.contains(n) { t.insert(NS); }
		if nsec { t.insert(NSEC); t.insert(RRSIG); } else if !t.is_empty() && !self.insecure.contains(n) { t.insert(RRSIG); }
		t
	}
	/// The complete denial chain of the zone
	fn denial_chain(&self) -> Vec<(Nm, RD)> {
		match &self.denial {
			Denial::Nsec => {
				let mut owners: Vec<Nm> = self.names().cloned().collect();
				owners.push(self.apex.clone());
				owners.sort_by(|a, b| a.canon_cmp(b));
				owners.dedup();
				(0..owners.len()).map(|i| {
					let next = owners[(i + 1) % owners.len()].clone();
					(owners[i].clone(), RD::NSec { next, types: self.types_at(&owners[i], true) })
				}).collect()
			},
			Denial::Nsec3 { iter, salt, optout } => {
				// algorithm and hash length if they are not the usual ones
				let (algo, len) = [(1, 20), (2, 20), (0, 20), (255, 20), (1, 15), (1, 25)][self.odd_nsec3 as usize];
				let hash = |n: &Nm| { let mut h = nsec3_hash(n, salt, *iter); h.resize(len, 7); h };
				let mut hs: Vec<(Vec<u8>, Nm)> = self.exists.iter()
					.filter(|n| !*optout || !self.insecure.contains(n))
					.filter(|n| !*optout || **n == self.apex || self.sets.keys().map(|k| &k.0).chain(self.children.iter()).any(|x| x.under_eq(n)))
					.map(|n| (hash(n), n.clone())).collect();
				hs.sort();
				(0..hs.len()).map(|i| {
					let next = hs[(i + 1) % hs.len()].0.clone();
					(self.apex.child(&b32(&hs[i].0)), RD::NSec3 {
						algo, flags: *optout as u8, iter: *iter, salt: salt.clone(), next, types: self.types_at(&hs[i].1, false),
					})
				}).collect()
			},
		}
	}
	/// The denial record covering a name that does not exist: owner, type, whether it is the last of the chain, opt-out
	pub fn covering(&self, name: &Nm) -> Option<(Nm, u16, bool, bool)> {
		if self.odd_nsec3 != 0 && self.denial != Denial::Nsec { return None; }
		match &self.denial {
			Denial::Nsec => {
				for (o, rd) in self.chain.iter() {
					if let RD::NSec { next, .. } = rd {
						let wrap = *next == self.apex;
						if o.canon_cmp(name).is_lt() && (wrap || name.canon_cmp(next).is_lt()) { return Some((o.clone(), NSEC, wrap, false)); }
					}
				}
				None
			},
			Denial::Nsec3 { iter, salt, optout } => {
				let h = b32(&nsec3_hash(name, salt, *iter));
				for (o, rd) in self.chain.iter() {
					if let RD::NSec3 { next, .. } = rd {
						let own = std::str::from_utf8(&o.0[0]).unwrap().to_string();
						let nx = b32(&next);
						let wrap = nx <= own;
						if own == h { return None; }
						if (own < h && (h < nx || wrap)) || (wrap && h < nx) { return Some((o.clone(), NSEC3, wrap, *optout)); }
					}
				}
				None
			},
		}
	}
}

fn in_range(r: &mut Rng, (a, b): (u32, u32)) -> u32 { if a >= b { a } else { a + (r.next() % ((b - a) as u64 + 1)) as u32 } }

/// The octets a signature covers
pub fn signed_data(head: &[u8], owner: &Nm, ty: u16, ttl: u32, rds: &[RD]) -> Vec<u8> {
	let mut d = head.to_vec();
	let mut raw: Vec<Vec<u8>> = rds.iter().map(|r| r.rdata()).collect();
	raw.sort();
	raw.dedup();
	for r in raw {
		d.extend(owner.wire());
		d.extend(ty.to_be_bytes());
		d.extend([0, 1]);
		d.extend(ttl.to_be_bytes());
		d.extend((r.len() as u16).to_be_bytes());
		d.extend(r);
	}
	d
}
pub fn make_sig(key: &Key, zone: &Nm, owner: &Nm, rds: &[RD], ty: u16, ttl: u32, inc: u32, exp: u32) -> Sig {
	let labels = owner.n() as u8 - owner.is_wild() as u8;
	let mut s = Sig { ty, alg: key.alg, labels, ttl, exp, inc, tag: key.tag(), signer: zone.clone(), sig: Vec::new() };
	s.sig = key.sign(&signed_data(&s.head(), owner, ty, ttl, rds));
	s
}

/// Distinct record data of a type
pub fn gen_rds(rng: &mut Rng, ty: u16, big: bool, w: &World) -> Vec<RD> {
	let n = if matches!(ty, CNAME | DNAME) { 1 } else if big && rng.chance(1, 6) { rng.range(4, 12) } else { *rng.pick(&[1, 1, 1, 2, 2, 3]) };
	let mut o: Vec<RD> = Vec::new();
	let mut tries = 0;
	while o.len() < n && tries < 50 {
		tries += 1;
		let rd = gen_rd(rng, ty, w);
		if !o.contains(&rd) { o.push(rd); }
	}
	o
}
fn some_target(rng: &mut Rng, w: &World) -> Nm {
	let zs: Vec<&Zone> = w.zones.iter().collect();
	if zs.is_empty() { return Nm::new("a.b."); }
	let z = rng.pick(&zs);
	let names: Vec<&Nm> = z.sets.keys().map(|k| &k.0).collect();
	let base = if names.is_empty() || rng.chance(1, 4) { z.apex.clone() } else { (*rng.pick(&names)).clone() };
	let base = if base.is_wild() { base.parent() } else { base };
	if rng.chance(1, 3) && base.text_len() < 150 { base.child(*rng.pick(&LABELS)) } else { base }
}
pub fn gen_rd(rng: &mut Rng, ty: u16, w: &World) -> RD {
	match ty {
		A => RD::A(rng.bytes(4).try_into().unwrap()),
		AAAA => RD::AAAA(rng.bytes(16).try_into().unwrap()),
		NS => RD::NS(if rng.chance(1, 2) { some_target(rng, w) } else { gen_name(rng, 4) }),
		CNAME => RD::CName(some_target(rng, w)),
		DNAME => RD::DName(some_target(rng, w)),
		TLSA => { let n = *rng.pick(&[1, 20, 32, 32, 64]); RD::Tlsa(rng.u8b(), rng.u8b(), rng.u8b(), rng.bytes(n)) },
		_ => {
			let n = if rng.chance(1, 4) { *rng.pick(&[0, 1, 254, 255, 256, 257, 509, 510, 511, 600]) } else { rng.range(1, 40) };
			let mut b = if rng.chance(3, 4) { (0..n).map(|_| *rng.pick(b"abcdefghij \"\\{}")).collect() } else { rng.bytes(n) };
			// neighbours in the sort order
			if n > 2 && rng.chance(1, 3) { for x in b.iter_mut() { *x = b'a'; } let i = rng.below(n); b[i] = rng.byte(); }
			RD::Txt(b)
		},
	}
}
pub fn gen_name(rng: &mut Rng, max: usize) -> Nm {
	let mut n = Nm::root();
	for _ in 0..rng.range(0, max) { n = n.child(*rng.pick(&LABELS)); }
	n
}
