//! A tiny DNSSEC signer for demonstrations.
#![allow(dead_code)]
use dnssec_prover::rr::*;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::{verify_rr_stream, ValidationError};
use ring::signature::KeyPair;

pub const T_A: u16 = 1;
pub const T_NS: u16 = 2;
pub const T_CNAME: u16 = 5;
pub const T_TXT: u16 = 16;
pub const T_AAAA: u16 = 28;
pub const T_DNAME: u16 = 39;
pub const T_DS: u16 = 43;
pub const T_RRSIG: u16 = 46;
pub const T_NSEC: u16 = 47;
pub const T_DNSKEY: u16 = 48;
pub const T_NSEC3: u16 = 50;
pub const T_TLSA: u16 = 52;

pub fn nm(s: &str) -> Vec<u8> {
	let mut o = Vec::new();
	for l in s.split('.').filter(|l| !l.is_empty()) { o.push(l.len() as u8); o.extend(l.to_ascii_lowercase().bytes()); }
	o.push(0);
	o
}
pub fn labels(s: &str) -> u8 { s.split('.').filter(|l| !l.is_empty() && *l != "*").count() as u8 }
pub fn txt(s: &[u8]) -> Vec<u8> {
	let mut o = Vec::new();
	if s.is_empty() { o.push(0); }
	for c in s.chunks(255) { o.push(c.len() as u8); o.extend(c); }
	o
}
pub fn bitmap(types: &[u16]) -> Vec<u8> {
	let mut o = Vec::new();
	for w in 0..256u32 {
		let mut m = [0u8; 32];
		let mut n = 0;
		for t in types { if (*t as u32) >> 8 == w { let b = (*t & 255) as usize; m[b / 8] |= 0x80 >> (b % 8); n = n.max(b / 8 + 1); } }
		if n > 0 { o.push(w as u8); o.push(n as u8); o.extend(&m[..n]); }
	}
	o
}
pub fn nsec(next: &str, types: &[u16]) -> Vec<u8> { let mut o = nm(next); o.extend(bitmap(types)); o }
pub fn nsec3(flags: u8, iter: u16, salt: &[u8], next: &[u8], types: &[u16]) -> Vec<u8> {
	let mut o = vec![1, flags];
	o.extend(iter.to_be_bytes());
	o.push(salt.len() as u8); o.extend(salt);
	o.push(next.len() as u8); o.extend(next);
	o.extend(bitmap(types));
	o
}
pub fn sha1(d: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, d).as_ref().to_vec() }
pub fn sha256(d: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA256, d).as_ref().to_vec() }
pub fn sha384(d: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA384, d).as_ref().to_vec() }
pub fn n3hash(name: &str, iter: u16, salt: &[u8]) -> Vec<u8> {
	let mut d = nm(name);
	d.extend(salt);
	let mut h = sha1(&d);
	for _ in 0..iter { h.extend(salt); h = sha1(&h); }
	h
}
pub fn b32(d: &[u8]) -> String {
	let a = b"0123456789abcdefghijklmnopqrstuv";
	let mut o = String::new();
	let (mut acc, mut bits) = (0u32, 0);
	for b in d { acc = acc << 8 | *b as u32; bits += 8; while bits >= 5 { o.push(a[(acc >> (bits - 5) & 31) as usize] as char); bits -= 5; } }
	if bits > 0 { o.push(a[(acc << (5 - bits) & 31) as usize] as char); }
	o
}
/// A hash one below, one above
pub fn dec(h: &[u8]) -> Vec<u8> { let mut h = h.to_vec(); for b in h.iter_mut().rev() { if *b == 0 { *b = 255; } else { *b -= 1; break; } } h }
pub fn inc(h: &[u8]) -> Vec<u8> { let mut h = h.to_vec(); for b in h.iter_mut().rev() { if *b == 255 { *b = 0; } else { *b += 1; break; } } h }

pub fn tag(rd: &[u8]) -> u16 {
	let mut s = 0u32;
	for (i, b) in rd.iter().enumerate() { s += if i % 2 == 0 { (*b as u32) << 8 } else { *b as u32 }; }
	(s + (s >> 16)) as u16
}
pub struct Key { pub kp: ring::signature::Ed25519KeyPair, pub flags: u16, pub proto: u8, pub alg: u8 }
impl Key {
	pub fn new(seed: u8) -> Key { Key { kp: ring::signature::Ed25519KeyPair::from_seed_unchecked(&[seed; 32]).unwrap(), flags: 257, proto: 3, alg: 15 } }
	pub fn seed(seed: &[u8; 32]) -> Key { Key { kp: ring::signature::Ed25519KeyPair::from_seed_unchecked(seed).unwrap(), flags: 257, proto: 3, alg: 15 } }
	pub fn rd(&self) -> Vec<u8> {
		let mut o = self.flags.to_be_bytes().to_vec();
		o.push(self.proto); o.push(self.alg);
		o.extend(self.kp.public_key().as_ref());
		o
	}
	pub fn tag(&self) -> u16 { tag(&self.rd()) }
	pub fn ds(&self, zone: &str, dt: u8) -> Vec<u8> {
		let mut d = nm(zone);
		d.extend(self.rd());
		let mut o = self.tag().to_be_bytes().to_vec();
		o.push(self.alg); o.push(dt);
		o.extend(match dt { 1 => sha1(&d), 4 => sha384(&d), _ => sha256(&d) });
		o
	}
}
pub struct Opt<'a> { pub at: Option<&'a str>, pub inc: u32, pub exp: u32, pub ttl: u32, pub alg: Option<u8>, pub bare: bool }
impl<'a> Default for Opt<'a> { fn default() -> Opt<'a> { Opt { at: None, inc: 1_700_000_000, exp: 1_800_000_000, ttl: 3600, alg: None, bare: false } } }

#[derive(Default, Clone)]
pub struct Proof(pub Vec<u8>);
impl Proof {
	pub fn rr(&mut self, owner: &str, ty: u16, rd: &[u8]) {
		self.0.extend(nm(owner));
		self.0.extend(ty.to_be_bytes());
		self.0.extend([0, 1]);
		self.0.extend(3600u32.to_be_bytes());
		self.0.extend((rd.len() as u16).to_be_bytes());
		self.0.extend(rd);
	}
	/// A signed record set
	pub fn set(&mut self, k: &Key, zone: &str, owner: &str, ty: u16, rds: &[Vec<u8>]) { self.setx(k, zone, owner, ty, rds, Opt::default()) }
	pub fn setx(&mut self, k: &Key, zone: &str, owner: &str, ty: u16, rds: &[Vec<u8>], o: Opt) {
		let at = o.at.unwrap_or(owner);
		if !o.bare { for r in rds { self.rr(at, ty, r); } }
		let mut h = ty.to_be_bytes().to_vec();
		h.push(o.alg.unwrap_or(k.alg)); h.push(labels(owner));
		h.extend(o.ttl.to_be_bytes()); h.extend(o.exp.to_be_bytes()); h.extend(o.inc.to_be_bytes());
		h.extend(k.tag().to_be_bytes());
		h.extend(nm(zone));
		let mut d = h.clone();
		let mut s = rds.to_vec();
		s.sort();
		for r in s {
			d.extend(nm(owner)); d.extend(ty.to_be_bytes()); d.extend([0, 1]); d.extend(o.ttl.to_be_bytes());
			d.extend((r.len() as u16).to_be_bytes()); d.extend(&r);
		}
		h.extend(k.kp.sign(&d).as_ref());
		self.rr(at, T_RRSIG, &h);
	}
	/// The root zone, with the key as the trust anchor
	pub fn root(k: &Key) -> Proof {
		let mut p = Proof::default();
		anchor(k);
		p.set(k, ".", ".", T_DNSKEY, &[k.rd()]);
		p
	}
	/// A child zone
	pub fn zone(&mut self, pk: &Key, parent: &str, k: &Key, zone: &str) {
		self.set(pk, parent, zone, T_DS, &[k.ds(zone, 2)]);
		self.set(k, zone, zone, T_DNSKEY, &[k.rd()]);
	}
	pub fn parse(&self) -> Vec<RR> { parse_rr_stream(&self.0).expect("the proof parses") }
	pub fn verify(&self) -> Result<Res, ValidationError> {
		let rrs = self.parse();
		let v = verify_rr_stream(&rrs)?;
		Ok(Res { rrs: v.verified_rrs.iter().map(|r| (*r).clone()).collect(), from: v.valid_from, exp: v.expires, ttl: v.max_cache_ttl })
	}
}
#[derive(Debug)]
pub struct Res { pub rrs: Vec<RR>, pub from: u64, pub exp: u64, pub ttl: u32 }
impl Res {
	pub fn has(&self, name: &str, ty: u16) -> bool { self.rrs.iter().any(|r| r.name().as_str() == name && Record::ty(r) == ty) }
}
pub fn anchor(k: &Key) { anchors(vec![DS { name: ".".try_into().unwrap(), key_tag: k.tag(), alg: k.alg, digest_type: 2, digest: k.ds(".", 2)[4..].to_vec() }]) }
pub fn anchors(v: Vec<DS>) { dnssec_prover::verif_hooks::set_root_anchors(Some(v)); }
pub fn name(s: &str) -> Name { s.try_into().expect("a valid name") }

/// A DNS response
pub struct Resp { pub flags: u16, pub an: Vec<u8>, pub an_n: u16, pub ns: Vec<u8>, pub ns_n: u16, pub q: String, pub qt: u16 }
impl Resp {
	pub fn new(q: &str, qt: u16) -> Resp { Resp { flags: 0x81a0, an: Vec::new(), an_n: 0, ns: Vec::new(), ns_n: 0, q: q.to_string(), qt } }
	pub fn an(mut self, owner: &str, ty: u16, ttl: u32, rd: &[u8]) -> Resp { self.an.extend(wire_rr(owner, ty, ttl, rd)); self.an_n += 1; self }
	pub fn ns(mut self, owner: &str, ty: u16, ttl: u32, rd: &[u8]) -> Resp { self.ns.extend(wire_rr(owner, ty, ttl, rd)); self.ns_n += 1; self }
	pub fn bytes(&self) -> Vec<u8> {
		let mut o = vec![0, 0];
		o.extend(self.flags.to_be_bytes());
		for n in [1, self.an_n, self.ns_n, 0] { o.extend(n.to_be_bytes()); }
		o.extend(nm(&self.q)); o.extend(self.qt.to_be_bytes()); o.extend([0, 1]);
		o.extend(&self.an); o.extend(&self.ns);
		o
	}
	pub fn buf(&self) -> dnssec_prover::query::QueryBuf { buf(&self.bytes()) }
}
pub fn buf(b: &[u8]) -> dnssec_prover::query::QueryBuf { let mut q = dnssec_prover::query::QueryBuf::new_zeroed(0); q.extend_from_slice(b); q }
pub fn wire_rr(owner: &str, ty: u16, ttl: u32, rd: &[u8]) -> Vec<u8> {
	let mut o = nm(owner);
	o.extend(ty.to_be_bytes()); o.extend([0, 1]); o.extend(ttl.to_be_bytes()); o.extend((rd.len() as u16).to_be_bytes()); o.extend(rd);
	o
}
/// RRSIG data that nobody signed
pub fn fake_sig(ty: u16, signer: &str) -> Vec<u8> {
	let mut h = ty.to_be_bytes().to_vec();
	h.extend([15, 1]); h.extend(3600u32.to_be_bytes()); h.extend(1_800_000_000u32.to_be_bytes()); h.extend(1_700_000_000u32.to_be_bytes()); h.extend([1, 2]);
	h.extend(nm(signer)); h.extend([7; 64]);
	h
}
