//! An independent model of names, records and their wire form. Shares no code with the crate under test.

use std::cmp::Ordering;
use std::collections::BTreeSet;

use dnssec_prover::rr;
use dnssec_prover::rr::RR;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const SOA: u16 = 6;
pub const TXT: u16 = 16;
pub const AAAA: u16 = 28;
pub const DNAME: u16 = 39;
pub const DS: u16 = 43;
pub const RRSIG: u16 = 46;
pub const NSEC: u16 = 47;
pub const DNSKEY: u16 = 48;
pub const NSEC3: u16 = 50;
pub const TLSA: u16 = 52;
pub const SUPPORTED: [u16; 12] = [A, NS, CNAME, TXT, AAAA, DNAME, DS, RRSIG, NSEC, DNSKEY, NSEC3, TLSA];

/// A name as its labels, leftmost first, in lower case; the root has none.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Nm(pub Vec<Vec<u8>>);
impl Nm {
	pub fn root() -> Nm { Nm(Vec::new()) }
	pub fn new(s: &str) -> Nm {
		if s == "." { return Nm::root(); }
		assert!(s.ends_with('.'), "{:?}", s);
		Nm(s[..s.len() - 1].split('.').map(|l| l.to_ascii_lowercase().into_bytes()).collect())
	}
	pub fn text(&self) -> String {
		if self.0.is_empty() { return ".".into(); }
		let mut s = String::new();
		for l in self.0.iter() { s.push_str(std::str::from_utf8(l).unwrap()); s.push('.'); }
		s
	}
	pub fn wire(&self) -> Vec<u8> {
		let mut o = Vec::new();
		for l in self.0.iter() { o.push(l.len() as u8); o.extend(l.iter().map(|c| c.to_ascii_lowercase())); }
		o.push(0);
		o
	}
	pub fn n(&self) -> usize { self.0.len() }
	pub fn under_eq(&self, z: &Nm) -> bool { self.n() >= z.n() && self.0[self.n() - z.n()..] == z.0[..] }
	pub fn under(&self, z: &Nm) -> bool { self.n() > z.n() && self.under_eq(z) }
	/// The last k labels
	pub fn last(&self, k: usize) -> Nm { Nm(self.0[self.n() - k..].to_vec()) }
	pub fn parent(&self) -> Nm { self.last(self.n() - 1) }
	pub fn child(&self, l: &str) -> Nm {
		let mut v: Vec<Vec<u8>> = l.split('.').map(|x| x.as_bytes().to_ascii_lowercase()).collect();
		v.extend(self.0.iter().cloned());
		Nm(v)
	}
	pub fn is_wild(&self) -> bool { self.0.first().map(|l| l == b"*").unwrap_or(false) }
	pub fn text_len(&self) -> usize { if self.0.is_empty() { 1 } else { self.0.iter().map(|l| l.len() + 1).sum() } }
	/// RFC 4034 section 6.1
	pub fn canon_cmp(&self, o: &Nm) -> Ordering {
		let (mut a, mut b) = (self.0.iter().rev(), o.0.iter().rev());
		loop {
			match (a.next(), b.next()) {
				(None, None) => return Ordering::Equal,
				(None, Some(_)) => return Ordering::Less,
				(Some(_), None) => return Ordering::Greater,
				(Some(x), Some(y)) => match x.cmp(y) { Ordering::Equal => {}, c => return c },
			}
		}
	}
	pub fn lib(&self) -> rr::Name { self.text().as_str().try_into().unwrap_or_else(|_| panic!("harness name {} refused", self.text())) }
	pub fn from_lib(n: &rr::Name) -> Nm { Nm::new(n.as_str()) }
}
impl std::fmt::Display for Nm { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.text()) } }

pub type Types = BTreeSet<u16>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum RD {
	A([u8; 4]),
	AAAA([u8; 16]),
	NS(Nm),
	Txt(Vec<u8>),
	Tlsa(u8, u8, u8, Vec<u8>),
	CName(Nm),
	DName(Nm),
	DnsKey { flags: u16, proto: u8, alg: u8, key: Vec<u8> },
	DS { tag: u16, alg: u8, dt: u8, digest: Vec<u8> },
	RRSig(Sig),
	NSec { next: Nm, types: Types },
	NSec3 { algo: u8, flags: u8, iter: u16, salt: Vec<u8>, next: Vec<u8>, types: Types },
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Sig { pub ty: u16, pub alg: u8, pub labels: u8, pub ttl: u32, pub exp: u32, pub inc: u32, pub tag: u16, pub signer: Nm, pub sig: Vec<u8> }
impl Sig {
	/// The RDATA without the signature
	pub fn head(&self) -> Vec<u8> {
		let mut o = Vec::new();
		o.extend(self.ty.to_be_bytes());
		o.push(self.alg); o.push(self.labels);
		o.extend(self.ttl.to_be_bytes()); o.extend(self.exp.to_be_bytes()); o.extend(self.inc.to_be_bytes());
		o.extend(self.tag.to_be_bytes());
		o.extend(self.signer.wire());
		o
	}
}

pub fn bitmap(types: &Types) -> Vec<u8> {
	let mut o = Vec::new();
	let mut w: Vec<u16> = types.iter().map(|t| t >> 8).collect();
	w.dedup();
	for win in w {
		let mut m = [0u8; 32];
		let mut hi = 0;
		for t in types.iter().filter(|t| **t >> 8 == win) {
			let lo = (*t & 255) as usize;
			m[lo / 8] |= 0x80 >> (lo % 8);
			hi = hi.max(lo / 8);
		}
		o.push(win as u8); o.push(hi as u8 + 1); o.extend(&m[..hi + 1]);
	}
	o
}

pub fn key_tag(flags: u16, proto: u8, alg: u8, key: &[u8]) -> u16 {
	// RFC 4034 appendix B, over the RDATA
	let mut rd = flags.to_be_bytes().to_vec();
	rd.push(proto); rd.push(alg); rd.extend(key);
	let mut ac: u64 = 0;
	for (i, b) in rd.iter().enumerate() { ac += if i & 1 == 1 { *b as u64 } else { (*b as u64) << 8 }; }
	ac += (ac >> 16) & 0xffff;
	(ac & 0xffff) as u16
}

impl RD {
	pub fn ty(&self) -> u16 {
		match self {
			RD::A(_) => A, RD::AAAA(_) => AAAA, RD::NS(_) => NS, RD::Txt(_) => TXT, RD::Tlsa(..) => TLSA, RD::CName(_) => CNAME,
			RD::DName(_) => DNAME, RD::DnsKey { .. } => DNSKEY, RD::DS { .. } => DS, RD::RRSig(_) => RRSIG, RD::NSec { .. } => NSEC,
			RD::NSec3 { .. } => NSEC3,
		}
	}
	/// Canonical RDATA
	pub fn rdata(&self) -> Vec<u8> {
		let mut o = Vec::new();
		match self {
			RD::A(a) => o.extend(a),
			RD::AAAA(a) => o.extend(a),
			RD::NS(n) | RD::CName(n) | RD::DName(n) => o = n.wire(),
			RD::Txt(d) => {
				if d.is_empty() { o.push(0); }
				for c in d.chunks(255) { o.push(c.len() as u8); o.extend(c); }
			},
			RD::Tlsa(a, b, c, d) => { o.extend([*a, *b, *c]); o.extend(d); },
			RD::DnsKey { flags, proto, alg, key } => { o.extend(flags.to_be_bytes()); o.push(*proto); o.push(*alg); o.extend(key); },
			RD::DS { tag, alg, dt, digest } => { o.extend(tag.to_be_bytes()); o.push(*alg); o.push(*dt); o.extend(digest); },
			RD::RRSig(s) => { o = s.head(); o.extend(&s.sig); },
			RD::NSec { next, types } => { o = next.wire(); o.extend(bitmap(types)); },
			RD::NSec3 { algo, flags, iter, salt, next, types } => {
				o.push(*algo); o.push(*flags); o.extend(iter.to_be_bytes());
				o.push(salt.len() as u8); o.extend(salt);
				o.push(next.len() as u8); o.extend(next);
				o.extend(bitmap(types));
			},
		}
		o
	}
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Rec { pub name: Nm, pub rd: RD }
impl Rec {
	pub fn new(name: &Nm, rd: RD) -> Rec { Rec { name: name.clone(), rd } }
	pub fn ty(&self) -> u16 { self.rd.ty() }
	pub fn wire(&self, ttl: u32) -> Vec<u8> {
		let mut o = self.name.wire();
		o.extend(self.ty().to_be_bytes());
		o.extend([0, 1]);
		o.extend(ttl.to_be_bytes());
		let rd = self.rd.rdata();
		o.extend((rd.len() as u16).to_be_bytes());
		o.extend(rd);
		o
	}
	pub fn lib(&self) -> RR {
		let name = self.name.lib();
		match self.rd.clone() {
			RD::A(address) => RR::A(rr::A { name, address }),
			RD::AAAA(address) => RR::AAAA(rr::AAAA { name, address }),
			RD::NS(n) => RR::NS(rr::NS { name, name_server: n.lib() }),
			RD::Txt(data) => RR::Txt(rr::Txt { name, data }),
			RD::Tlsa(cert_usage, selector, data_ty, data) => RR::TLSA(rr::TLSA { name, cert_usage, selector, data_ty, data }),
			RD::CName(n) => RR::CName(rr::CName { name, canonical_name: n.lib() }),
			RD::DName(n) => RR::DName(rr::DName { name, delegation_name: n.lib() }),
			RD::DnsKey { flags, proto, alg, key } => RR::DnsKey(rr::DnsKey { name, flags, protocol: proto, alg, pubkey: key }),
			RD::DS { tag, alg, dt, digest } => RR::DS(rr::DS { name, key_tag: tag, alg, digest_type: dt, digest }),
			RD::RRSig(s) => RR::RRSig(rr::RRSig {
				name, ty: s.ty, alg: s.alg, labels: s.labels, orig_ttl: s.ttl, expiration: s.exp, inception: s.inc,
				key_tag: s.tag, key_name: s.signer.lib(), signature: s.sig,
			}),
			RD::NSec { next, types } => RR::NSec(rr::NSec { name, next_name: next.lib(), types: mask(&types) }),
			RD::NSec3 { algo, flags, iter, salt, next, types } => RR::NSec3(rr::NSec3 {
				name, hash_algo: algo, flags, hash_iterations: iter, salt, next_name_hash: next, types: mask(&types),
			}),
		}
	}
	pub fn from_lib(r: &RR) -> Rec {
		let name = Nm::from_lib(r.name());
		let rd = match r {
			RR::A(r) => RD::A(r.address),
			RR::AAAA(r) => RD::AAAA(r.address),
			RR::NS(r) => RD::NS(Nm::from_lib(&r.name_server)),
			RR::Txt(r) => RD::Txt(r.data.clone()),
			RR::TLSA(r) => RD::Tlsa(r.cert_usage, r.selector, r.data_ty, r.data.clone()),
			RR::CName(r) => RD::CName(Nm::from_lib(&r.canonical_name)),
			RR::DName(r) => RD::DName(Nm::from_lib(&r.delegation_name)),
			RR::DnsKey(r) => RD::DnsKey { flags: r.flags, proto: r.protocol, alg: r.alg, key: r.pubkey.clone() },
			RR::DS(r) => RD::DS { tag: r.key_tag, alg: r.alg, dt: r.digest_type, digest: r.digest.clone() },
			RR::RRSig(r) => RD::RRSig(Sig {
				ty: r.ty, alg: r.alg, labels: r.labels, ttl: r.orig_ttl, exp: r.expiration, inc: r.inception, tag: r.key_tag,
				signer: Nm::from_lib(&r.key_name), sig: r.signature.clone(),
			}),
			RR::NSec(r) => RD::NSec { next: Nm::from_lib(&r.next_name), types: unmask(&r.types) },
			RR::NSec3(r) => RD::NSec3 {
				algo: r.hash_algo, flags: r.flags, iter: r.hash_iterations, salt: r.salt.clone(), next: r.next_name_hash.clone(),
				types: unmask(&r.types),
			},
		};
		Rec { name, rd }
	}
}
impl std::fmt::Display for Rec {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		use crate::util::hex;
		write!(f, "{} ", self.name)?;
		match &self.rd {
			RD::NS(n) => write!(f, "NS {}", n),
			RD::CName(n) => write!(f, "CNAME {}", n),
			RD::DName(n) => write!(f, "DNAME {}", n),
			RD::Txt(d) => write!(f, "TXT {}", String::from_utf8_lossy(d)),
			RD::DnsKey { flags, proto, alg, key } => write!(f, "DNSKEY {} {} {} {} ; tag {}", flags, proto, alg, hex(key), key_tag(*flags, *proto, *alg, key)),
			RD::DS { tag, alg, dt, digest } => write!(f, "DS {} {} {} {}", tag, alg, dt, hex(digest)),
			RD::RRSig(s) => write!(f, "RRSIG {} {} {} {} {} {} {} {} {}", s.ty, s.alg, s.labels, s.ttl, s.exp, s.inc, s.tag, s.signer, hex(&s.sig)),
			RD::NSec { next, types } => write!(f, "NSEC {} {:?}", next, types),
			RD::NSec3 { algo, flags, iter, salt, next, types } => write!(f, "NSEC3 {} {} {} {} {} {:?}", algo, flags, iter, hex(salt), b32(next), types),
			o => write!(f, "TYPE{} {}", o.ty(), hex(&o.rdata())),
		}
	}
}
pub fn show(recs: &[Rec]) -> String { recs.iter().map(|r| r.to_string() + "\n").collect() }

pub fn mask(t: &Types) -> rr::NSecTypeMask { rr::NSecTypeMask::from_types(&t.iter().copied().collect::<Vec<_>>()) }
pub fn unmask(m: &rr::NSecTypeMask) -> Types { (0..=65535u16).filter(|t| m.contains_type(*t)).collect() }

const B32: &[u8] = b"0123456789abcdefghijklmnopqrstuv";
pub fn b32(d: &[u8]) -> String {
	let mut o = String::new();
	let (mut acc, mut n) = (0u32, 0);
	for b in d {
		acc = acc << 8 | *b as u32; n += 8;
		while n >= 5 { o.push(B32[(acc >> (n - 5)) as usize & 31] as char); n -= 5; }
		acc &= (1 << n) - 1;
	}
	if n > 0 { o.push(B32[(acc << (5 - n)) as usize & 31] as char); }
	o
}

// ---------------------------------------------------------------- reading

/// What the reference reader says about an encoding
#[derive(Clone, Debug, PartialEq)]
pub enum Read<T> {
	/// Well-formed: must be accepted and denote this
	Ok(T),
	/// Must be refused
	Bad(&'static str),
	/// Implementations may differ; if it is accepted, it must denote this (when known)
	Either(Option<T>),
}

fn label_ok(l: &[u8]) -> bool { l.iter().all(|c| c.is_ascii_graphic() && *c != b'"' && *c != b'.') }

/// Reads a name at `pos` of `buf`, which ends at `end`; pointers go into `pkt`. Gives the name, the position after it
/// and whether it was unusual enough for readers to differ.
pub fn read_name(buf: &[u8], mut pos: usize, end: usize, pkt: &[u8]) -> Result<(Nm, usize, bool), &'static str> {
	let mut labels: Vec<Vec<u8>> = Vec::new();
	let mut total = 0;
	let mut either = false;
	let mut after = None;
	let (mut cur, mut cur_end, mut hops) = (buf, end, 0);
	loop {
		if pos >= cur_end { return Err("truncated name"); }
		let l = cur[pos] as usize;
		pos += 1;
		if l == 0 { break; }
		if l & 0xc0 == 0xc0 {
			if pos >= cur_end { return Err("truncated pointer"); }
			let off = (l & 0x3f) << 8 | cur[pos] as usize;
			pos += 1;
			if after.is_none() { after = Some(pos); }
			if off >= pkt.len() { return Err("pointer out of range"); }
			// RFC 1035 pointers go to a prior occurrence; anything else readers may refuse or not
			if std::ptr::eq(cur.as_ptr(), pkt.as_ptr()) && off >= pos - 2 { either = true; }
			hops += 1;
			if hops > 60 { either = true; }
			if hops > 300 { return Err("pointer loop"); }
			cur = pkt; cur_end = pkt.len(); pos = off;
			continue;
		}
		if l > 63 { return Err("label type"); }
		if pos + l >= cur_end { return Err("truncated label"); }
		let lab = &cur[pos..pos + l];
		if !label_ok(lab) { return Err("label bytes"); }
		total += l + 1;
		if total > 255 { return Err("name too long"); }
		labels.push(lab.to_ascii_lowercase());
		pos += l;
	}
	if total == 255 { either = true; }
	Ok((Nm(labels), after.unwrap_or(pos), either))
}

/// Reads one record at `pos`. `pkt` is empty for streams, where compression is not allowed.
pub fn read_rr(buf: &[u8], pos: usize, pkt: &[u8]) -> (Read<(Rec, u32)>, usize) {
	let end = buf.len();
	let (name, p, mut either) = match read_name(buf, pos, end, pkt) { Ok(x) => x, Err(e) => return (Read::Bad(e), end) };
	if p + 10 > end { return (Read::Bad("truncated header"), end); }
	let ty = u16::from_be_bytes([buf[p], buf[p + 1]]);
	let class = u16::from_be_bytes([buf[p + 2], buf[p + 3]]);
	let ttl = u32::from_be_bytes([buf[p + 4], buf[p + 5], buf[p + 6], buf[p + 7]]);
	let len = u16::from_be_bytes([buf[p + 8], buf[p + 9]]) as usize;
	let d0 = p + 10;
	if d0 + len > end { return (Read::Bad("truncated data"), end); }
	let next = d0 + len;
	if class != 1 { return (Read::Bad("class"), next); }
	let d = &buf[d0..next];
	let bad = |w| (Read::Bad(w), next);
	let rname = |off: usize| read_name(buf, d0 + off, next, pkt);
	let u16at = |i: usize| u16::from_be_bytes([d[i], d[i + 1]]);
	let u32at = |i: usize| u32::from_be_bytes([d[i], d[i + 1], d[i + 2], d[i + 3]]);
	let rd = match ty {
		A => { if len != 4 { return bad("length"); } RD::A(d.try_into().unwrap()) },
		AAAA => { if len != 16 { return bad("length"); } RD::AAAA(d.try_into().unwrap()) },
		NS | CNAME | DNAME => {
			let (n, e, ei) = match rname(0) { Ok(x) => x, Err(w) => return bad(w) };
			if e != next { return bad("left-over bytes"); }
			either |= ei;
			match ty {
				NS => RD::NS(n), CNAME => RD::CName(n),
				_ => {
					if d.len() != n.wire().len() { either = true; } // compressed, which RFC 6672 forbids
					RD::DName(n)
				},
			}
		},
		TXT => {
			let mut o = Vec::new();
			let mut i = 0;
			if d.is_empty() { either = true; }
			while i < len {
				let l = d[i] as usize;
				if i + 1 + l > len { return bad("truncated string"); }
				o.extend(&d[i + 1..i + 1 + l]);
				i += 1 + l;
			}
			RD::Txt(o)
		},
		TLSA => {
			if len < 3 { return bad("length"); }
			if len == 3 { either = true; }
			RD::Tlsa(d[0], d[1], d[2], d[3..].to_vec())
		},
		DNSKEY => {
			if len < 4 { return bad("length"); }
			if len == 4 { either = true; }
			RD::DnsKey { flags: u16at(0), proto: d[2], alg: d[3], key: d[4..].to_vec() }
		},
		DS => {
			if len < 4 { return bad("length"); }
			if len == 4 { either = true; }
			RD::DS { tag: u16at(0), alg: d[2], dt: d[3], digest: d[4..].to_vec() }
		},
		RRSIG => {
			if len < 19 { return bad("length"); }
			let (signer, e, ei) = match rname(18) { Ok(x) => x, Err(w) => return bad(w) };
			either |= ei;
			if e - (d0 + 18) != signer.wire().len() { either = true; }
			if e == next { either = true; }
			RD::RRSig(Sig { ty: u16at(0), alg: d[2], labels: d[3], ttl: u32at(4), exp: u32at(8), inc: u32at(12), tag: u16at(16), signer, sig: buf[e..next].to_vec() })
		},
		NSEC => {
			let (n, e, ei) = match rname(0) { Ok(x) => x, Err(w) => return bad(w) };
			either |= ei;
			if e - d0 != n.wire().len() { either = true; }
			match read_bitmap(&buf[e..next]) { Err(w) => return bad(w), Ok((types, ei, un)) => { if un { return (Read::Either(None), next); } either |= ei; RD::NSec { next: n, types } } }
		},
		NSEC3 => {
			if len < 6 { return bad("length"); }
			let sl = d[4] as usize;
			if 5 + sl >= len { return bad("salt"); }
			let hl = d[5 + sl] as usize;
			if 6 + sl + hl > len { return bad("hash"); }
			if hl == 0 { either = true; }
			match read_bitmap(&d[6 + sl + hl..]) {
				Err(w) => return bad(w),
				Ok((types, ei, un)) => {
					if un { return (Read::Either(None), next); }
					either |= ei;
					RD::NSec3 { algo: d[0], flags: d[1], iter: u16at(2), salt: d[5..5 + sl].to_vec(), next: d[6 + sl..6 + sl + hl].to_vec(), types }
				},
			}
		},
		_ => return bad("type"),
	};
	let r = (Rec { name, rd }, ttl);
	(if either { Read::Either(Some(r)) } else { Read::Ok(r) }, next)
}

/// The types, whether readers may differ, and whether they may differ about the meaning, too
fn read_bitmap(mut d: &[u8]) -> Result<(Types, bool, bool), &'static str> {
	let mut t = Types::new();
	let mut either = false;
	let mut unknown = false;
	let mut seen = BTreeSet::new();
	let mut last: i32 = -1;
	while !d.is_empty() {
		if d.len() < 2 { return Err("bitmap header"); }
		let (w, l) = (d[0], d[1] as usize);
		if l > 32 { return Err("bitmap length"); }
		if d.len() < 2 + l { return Err("bitmap truncated"); }
		if l == 0 || d[1 + l] == 0 || w as i32 <= last { either = true; }
		last = last.max(w as i32);
		if !seen.insert(w) { unknown = true; either = true; }
		for i in 0..l * 8 { if d[2 + i / 8] & (0x80 >> (i % 8)) != 0 { t.insert((w as u16) << 8 | i as u16); } }
		d = &d[2 + l..];
	}
	Ok((t, either, unknown))
}

/// Reads a whole stream
pub fn read_stream(buf: &[u8]) -> Read<Vec<Rec>> {
	let (mut pos, mut out, mut either) = (0, Vec::new(), false);
	while pos < buf.len() {
		let (r, n) = read_rr(buf, pos, &[]);
		match r {
			Read::Ok((rec, _)) => out.push(rec),
			Read::Either(Some((rec, _))) => { either = true; out.push(rec) },
			Read::Either(None) => return Read::Either(None),
			Read::Bad(w) => return Read::Bad(w),
		}
		pos = n;
	}
	if either { Read::Either(Some(out)) } else { Read::Ok(out) }
}
