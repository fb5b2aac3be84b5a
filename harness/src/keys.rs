//! Signing keys of every kind the library supports, and some it does not.

use ring::digest;
use ring::signature::{self, EcdsaKeyPair, Ed25519KeyPair, RsaKeyPair, KeyPair};
use ring::rand::SystemRandom;
use std::sync::{Arc, OnceLock};

use crate::dns::*;
use crate::util::{fnv, unhex, Rng};

#[derive(Clone)]
pub enum Signer {
	Ed(Arc<Ed25519KeyPair>),
	P256(usize),
	P384(usize),
	Rsa(usize),
	/// n, d as big-endian bytes
	BigRsa(Arc<(Vec<u8>, Vec<u8>)>),
	/// An algorithm nobody here can check; its signatures are arbitrary bytes
	Dummy(u64),
}

#[derive(Clone)]
pub struct Key { pub flags: u16, pub proto: u8, pub alg: u8, pub pubkey: Vec<u8>, pub signer: Signer }

struct Pool { p256: Vec<EcdsaKeyPair>, p384: Vec<EcdsaKeyPair>, rsa: Vec<RsaKeyPair>, big: Vec<(Arc<(Vec<u8>, Vec<u8>)>, Vec<u8>)>, huge: Arc<(Vec<u8>, Vec<u8>)> }
fn pool() -> &'static Pool {
	static P: OnceLock<Pool> = OnceLock::new();
	P.get_or_init(|| {
		let rng = SystemRandom::new();
		let ec = |alg, b: &[u8]| EcdsaKeyPair::from_pkcs8(alg, b, &rng).unwrap();
		let big = |t: &str, e: &[u8]| {
			let mut l = t.lines();
			let (n, d) = (unhex(l.next().unwrap()), unhex(l.next().unwrap()));
			let n: Vec<u8> = n.into_iter().skip_while(|b| *b == 0).collect();
			(Arc::new((n, d)), e.to_vec())
		};
		Pool {
			p256: [&include_bytes!("../keys/p256_0.pk8")[..], &include_bytes!("../keys/p256_1.pk8")[..], &include_bytes!("../keys/p256_2.pk8")[..],
				&include_bytes!("../keys/p256_3.pk8")[..], &include_bytes!("../keys/p256_4.pk8")[..], &include_bytes!("../keys/p256_5.pk8")[..],
				&include_bytes!("../keys/p256_6.pk8")[..], &include_bytes!("../keys/p256_7.pk8")[..]]
				.iter().map(|b| ec(&signature::ECDSA_P256_SHA256_FIXED_SIGNING, b)).collect(),
			p384: [&include_bytes!("../keys/p384_0.pk8")[..], &include_bytes!("../keys/p384_1.pk8")[..], &include_bytes!("../keys/p384_2.pk8")[..],
				&include_bytes!("../keys/p384_3.pk8")[..]].iter().map(|b| ec(&signature::ECDSA_P384_SHA384_FIXED_SIGNING, b)).collect(),
			rsa: [&include_bytes!("../keys/rsa2048_0.pk8")[..], &include_bytes!("../keys/rsa2048_1.pk8")[..], &include_bytes!("../keys/rsa2048_2.pk8")[..],
				&include_bytes!("../keys/rsa4096_0.pk8")[..], &include_bytes!("../keys/rsa2048_f5.pk8")[..], &include_bytes!("../keys/rsa3072_0.pk8")[..]].iter().map(|b| RsaKeyPair::from_pkcs8(b).unwrap()).collect(),
			big: vec![big(include_str!("../keys/rsa1024.hex"), &[1, 0, 1]), big(include_str!("../keys/rsa2048_e3.hex"), &[3]),
				big(include_str!("../keys/rsa1280.hex"), &[1, 0, 1]), big(include_str!("../keys/rsa1031.hex"), &[1, 0, 1])],
			huge: big(include_str!("../keys/rsa8192.hex"), &[1, 0, 1]).0,
		}
	})
}

fn rsa_pub(e: &[u8], n: &[u8], long: bool) -> Vec<u8> {
	let mut o = Vec::new();
	if long { o.push(0); o.extend((e.len() as u16).to_be_bytes()); } else { o.push(e.len() as u8); }
	o.extend(e);
	o.extend(n);
	o
}

/// How many distinct keys of an algorithm there are without repetition
pub fn supported_algs() -> &'static [u8] { &[8, 10, 13, 14, 15] }
pub fn alg_supported(a: u8) -> bool { matches!(a, 8 | 10 | 13 | 14 | 15) }

impl Key {
	pub fn ed25519(seed: u64) -> Key {
		let mut r = Rng::new(seed, "ed25519", 0);
		let s = r.bytes(32);
		let k = Ed25519KeyPair::from_seed_unchecked(&s).unwrap();
		let pubkey = k.public_key().as_ref().to_vec();
		Key { flags: 256, proto: 3, alg: 15, pubkey, signer: Signer::Ed(Arc::new(k)) }
	}
	/// The largest RSA key there may be (8192 bits); signing with it is slow
	pub fn huge(alg: u8) -> Key {
		let nd = &pool().huge;
		Key { flags: 256, proto: 3, alg, pubkey: rsa_pub(&[1, 0, 1], &nd.0, false), signer: Signer::BigRsa(nd.clone()) }
	}
	/// Key number `i` of the algorithm (small pools wrap around)
	pub fn of_alg(alg: u8, i: u64) -> Key {
		let p = pool();
		match alg {
			15 => Key::ed25519(i),
			13 => {
				let j = (i % p.p256.len() as u64) as usize;
				Key { flags: 256, proto: 3, alg, pubkey: p.p256[j].public_key().as_ref()[1..].to_vec(), signer: Signer::P256(j) }
			},
			14 => {
				let j = (i % p.p384.len() as u64) as usize;
				Key { flags: 256, proto: 3, alg, pubkey: p.p384[j].public_key().as_ref()[1..].to_vec(), signer: Signer::P384(j) }
			},
			8 | 10 => {
				let all = p.rsa.len() + p.big.len();
				let j = (i % all as u64) as usize;
				if j < p.rsa.len() {
					let pk = p.rsa[j].public_key();
					let ring::rsa::PublicKeyComponents::<Vec<u8>> { n, e } = pk.into();
					Key { flags: 256, proto: 3, alg, pubkey: rsa_pub(&e, &n, i % 7 == 3), signer: Signer::Rsa(j) }
				} else {
					let (nd, e) = &p.big[j - p.rsa.len()];
					Key { flags: 256, proto: 3, alg, pubkey: rsa_pub(e, &nd.0, i % 7 == 3), signer: Signer::BigRsa(nd.clone()) }
				}
			},
			// No algorithm which counts: the signatures are genuine all the same, so that only their algorithm
			// keeps them from being believed
			5 | 7 => {
				let (nd, e) = &p.big[(i % p.big.len() as u64) as usize];
				Key { flags: 256, proto: 3, alg, pubkey: rsa_pub(e, &nd.0, i % 7 == 3), signer: Signer::BigRsa(nd.clone()) }
			},
			_ => {
				let mut r = Rng::new(i, "dummy", alg as u64);
				match i % 5 {
					0 => Key { alg, ..Key::ed25519(i ^ 0xa11e) },
					1 => Key { alg, ..Key::of_alg(13, i / 5) },
					2 => Key { alg, ..Key::of_alg(8, i / 5) },
					_ => Key { flags: 256, proto: 3, alg, pubkey: r.bytes(57), signer: Signer::Dummy(i) },
				}
			},
		}
	}
	/// A key nobody uses, and mostly nobody can: of any algorithm, with odd flags or protocol, or retired
	pub fn useless(rng: &mut Rng) -> Key {
		let alg = *rng.pick(&[15u8, 13, 14, 8, 10, 10, 5, 7, 3, 16, 253]);
		let mut k = Key::of_alg(alg, rng.next() >> 1);
		k.flags = *rng.pick(&[256u16, 257, 0, 1, 0x180, 0x181, 0x8100, 0xffff]);
		k.proto = *rng.pick(&[3u8, 3, 0, 1, 2, 4, 255]);
		if rng.chance(1, 6) { let n = rng.range(1, 70); k.pubkey = rng.bytes(n); }
		k
	}
	pub fn ksk(mut self) -> Key { self.flags = 257; self }
	pub fn tag(&self) -> u16 { key_tag(self.flags, self.proto, self.alg, &self.pubkey) }
	pub fn rd(&self) -> RD { RD::DnsKey { flags: self.flags, proto: self.proto, alg: self.alg, key: self.pubkey.clone() } }
	pub fn digest(&self, zone: &Nm, dt: u8) -> Vec<u8> {
		let mut d = zone.wire();
		d.extend(self.rd().rdata());
		match dt {
			1 => digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, &d).as_ref().to_vec(),
			4 => digest::digest(&digest::SHA384, &d).as_ref().to_vec(),
			_ => digest::digest(&digest::SHA256, &d).as_ref().to_vec(),
		}
	}
	pub fn ds(&self, zone: &Nm, dt: u8) -> RD { RD::DS { tag: self.tag(), alg: self.alg, dt, digest: self.digest(zone, dt) } }
	/// Signs with the algorithm given (so that, e.g., an RSA key can make SHA-512 signatures under an 8 label)
	pub fn sign_as(&self, alg: u8, data: &[u8]) -> Vec<u8> {
		let p = pool();
		let rng = SystemRandom::new();
		match &self.signer {
			Signer::Ed(k) => k.sign(data).as_ref().to_vec(),
			Signer::P256(j) => p.p256[*j].sign(&rng, data).unwrap().as_ref().to_vec(),
			Signer::P384(j) => p.p384[*j].sign(&rng, data).unwrap().as_ref().to_vec(),
			Signer::Rsa(j) => {
				let k = &p.rsa[*j];
				let mut o = vec![0; k.public().modulus_len()];
				let enc: &'static dyn signature::RsaEncoding = if alg == 10 { &signature::RSA_PKCS1_SHA512 } else { &signature::RSA_PKCS1_SHA256 };
				k.sign(enc, &rng, data, &mut o).unwrap();
				o
			},
			Signer::BigRsa(nd) => rsa_pkcs1(&nd.0, &nd.1, alg, data),
			Signer::Dummy(s) => Rng::new(*s, "dummysig", fnv(data)).bytes(64),
		}
	}
	pub fn sign(&self, data: &[u8]) -> Vec<u8> { self.sign_as(self.alg, data) }
}

// ---------------------------------------------------------------- RSA for the sizes and exponents ring does not sign with

fn rsa_pkcs1(n: &[u8], d: &[u8], alg: u8, data: &[u8]) -> Vec<u8> {
	let (pre, h): (&[u8], Vec<u8>) = if matches!(alg, 5 | 7) {
		(&[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14], sha1(data))
	} else if alg == 10 {
		(&[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40],
			digest::digest(&digest::SHA512, data).as_ref().to_vec())
	} else {
		(&[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20],
			digest::digest(&digest::SHA256, data).as_ref().to_vec())
	};
	let k = n.len();
	let mut em = vec![0, 1];
	em.resize(k - pre.len() - h.len() - 1, 0xff);
	em.push(0);
	em.extend(pre);
	em.extend(h);
	modexp(&em, d, n)
}
fn limbs(b: &[u8], len: usize) -> Vec<u32> {
	let mut v = vec![0u32; len];
	for (i, x) in b.iter().rev().enumerate() { v[i / 4] |= (*x as u32) << (8 * (i % 4)); }
	v
}
fn geq(a: &[u32], b: &[u32]) -> bool { for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i] > b[i]; } } true }
/// Montgomery multiplication
fn mont(a: &[u32], b: &[u32], n: &[u32], ninv: u32) -> Vec<u32> {
	let l = n.len();
	let mut t = vec![0u32; l + 2];
	for i in 0..l {
		let mut c = 0u64;
		for j in 0..l { let x = t[j] as u64 + a[i] as u64 * b[j] as u64 + c; t[j] = x as u32; c = x >> 32; }
		let x = t[l] as u64 + c; t[l] = x as u32; t[l + 1] = (x >> 32) as u32;
		let m = t[0].wrapping_mul(ninv);
		let mut c = (t[0] as u64 + m as u64 * n[0] as u64) >> 32;
		for j in 1..l { let x = t[j] as u64 + m as u64 * n[j] as u64 + c; t[j - 1] = x as u32; c = x >> 32; }
		let x = t[l] as u64 + c; t[l - 1] = x as u32; t[l] = t[l + 1] + (x >> 32) as u32; t[l + 1] = 0;
	}
	let mut r = t[..l].to_vec();
	if t[l] != 0 || geq(&r, n) { let mut br = 0i64; for i in 0..l { let x = r[i] as i64 - n[i] as i64 + br; r[i] = x as u32; br = x >> 32; } }
	r
}
fn modexp(m: &[u8], d: &[u8], n: &[u8]) -> Vec<u8> {
	let l = (n.len() + 3) / 4;
	let nl = limbs(n, l);
	let mut inv = 1u32;
	for _ in 0..5 { inv = inv.wrapping_mul(2u32.wrapping_sub(nl[0].wrapping_mul(inv))); }
	let ninv = inv.wrapping_neg();
	// R^2 mod n by doubling
	let mut r2 = vec![0u32; l];
	r2[0] = 1;
	for _ in 0..l * 64 {
		let mut c = 0;
		for x in r2.iter_mut() { let y = *x >> 31; *x = *x << 1 | c; c = y; }
		if c != 0 || geq(&r2, &nl) { let mut br = 0i64; for i in 0..l { let x = r2[i] as i64 - nl[i] as i64 + br; r2[i] = x as u32; br = x >> 32; } }
	}
	let base = mont(&limbs(m, l), &r2, &nl, ninv);
	let mut one = vec![0u32; l];
	one[0] = 1;
	let mut acc = mont(&one, &r2, &nl, ninv);
	for byte in d {
		for bit in (0..8).rev() {
			acc = mont(&acc, &acc, &nl, ninv);
			if byte >> bit & 1 == 1 { acc = mont(&acc, &base, &nl, ninv); }
		}
	}
	let r = mont(&acc, &one, &nl, ninv);
	let mut o = Vec::new();
	for i in (0..n.len()).rev() { o.push((r[i / 4] >> (8 * (i % 4))) as u8); }
	o
}

pub fn sha1(d: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, d).as_ref().to_vec() }
pub fn nsec3_hash(name: &Nm, salt: &[u8], iter: u16) -> Vec<u8> {
	let mut d = name.wire();
	d.extend(salt);
	let mut h = sha1(&d);
	for _ in 0..iter { h.extend(salt); h = sha1(&h); }
	h
}
