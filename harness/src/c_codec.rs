//! C10-C14: encoding, order, names, JSON, the query buffer.

use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};

use dnssec_prover::query::QueryBuf;
use dnssec_prover::rr::{self, Name, Record, RR};
use dnssec_prover::ser::{parse_rr_stream, write_rr};

use crate::dns::*;
use crate::json;
use crate::util::*;
use crate::{ensure, viol};

// ---------------------------------------------------------------- generators

/// Bytes a label may consist of
pub fn label_bytes() -> Vec<u8> { (0x21..0x7f).filter(|c| *c != b'"' && *c != b'.').collect() }
pub fn any_label(r: &mut Rng) -> Vec<u8> {
	let cs = label_bytes();
	let n = match r.below(8) { 0 => 63, 1 => r.range(1, 63), 2 => *r.pick(&[61, 62, 63, 32, 31]), _ => r.range(1, 5) };
	let style = r.below(4);
	(0..n).map(|_| match style { 0 => *r.pick(&cs), 1 => *r.pick(b"\\{}[],:*@[`{-"), _ => *r.pick(b"abcxyz0-_*") }).map(|c: u8| c.to_ascii_lowercase()).collect()
}
/// Any name a record may have: text of up to 254 bytes
pub fn any_name(r: &mut Rng) -> Nm {
	let mut n = Nm::root();
	let want = match r.below(12) { 0 => 0, 1 => 127, 2 => r.range(1, 127), 3 => 20, _ => r.range(1, 5) };
	let tiny = want > 20;
	let fill = r.chance(1, 8);
	for _ in 0..want {
		let mut l = if tiny { vec![*r.pick(b"ab-*\\")] } else { any_label(r) };
		if n.text_len() % 1000 + l.len() + 1 > 254 { if !fill { break; } let room = 254usize.saturating_sub(if n.n() == 0 { 0 } else { n.text_len() }); if room < 2 { break; } l.truncate(room - 1); }
		let mut v = vec![l];
		v.extend(n.0.iter().cloned());
		let m = Nm(v);
		if m.text_len() > 254 { break; }
		n = m;
	}
	n
}
pub fn any_types(r: &mut Rng) -> Types {
	// maps of more than a thousand bytes, up to the largest there is
	if r.chance(1, 50) {
		return match r.below(4) {
			0 => (0..=u16::MAX).collect(),
			1 => { let k = r.range(2, 300) as u16; (0..=u16::MAX).filter(|t| t % k == 0).collect() },
			_ => (0..r.range(50, 3000)).map(|_| r.next() as u16).collect(),
		};
	}
	match r.below(6) {
		0 => Types::new(),
		1 => [A, NS, SOA, TXT, AAAA, RRSIG, NSEC, DNSKEY].iter().copied().filter(|_| r.chance(1, 2)).collect(),
		2 => (0..r.range(1, 40)).map(|_| r.next() as u16).collect(),
		3 => [0u16, 1, 7, 8, 254, 255, 256, 257, 511, 512, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff].iter().copied().filter(|_| r.chance(1, 3)).collect(),
		4 => { let s = r.next() as u16; (0..r.range(1, 300)).map(|i| s.wrapping_add(i as u16)).collect() },
		_ => (0..r.range(1, 8)).map(|_| r.below(300) as u16).collect(),
	}
}
fn blob(r: &mut Rng, max: usize) -> Vec<u8> {
	let n = match r.below(60) { 0 => max, 1 => r.range(0, max), _ => r.size(3000.min(max)) };
	match r.below(5) { 0 => vec![0; n], 1 => vec![0xff; n], 2 => vec![r.byte(); n], _ => r.bytes(n) }
}
pub fn any_rd(r: &mut Rng, ty: u16) -> RD {
	match ty {
		A => RD::A([r.u8b(), r.u8b(), r.byte(), r.u8b()]),
		AAAA => RD::AAAA(r.bytes(16).try_into().unwrap()),
		NS => RD::NS(any_name(r)),
		CNAME => RD::CName(any_name(r)),
		DNAME => RD::DName(any_name(r)),
		TXT => {
			let mut d = blob(r, 65279);
			match r.below(6) {
				0 => d = any_text(r).into_bytes(),
				1 => { let n = *r.pick(&[0, 1, 254, 255, 256, 509, 510, 511, 764, 765, 766]); d = vec![b'x'; n]; },
				_ => {},
			}
			RD::Txt(d)
		},
		TLSA => RD::Tlsa(r.u8b(), r.u8b(), r.u8b(), blob(r, 65532)),
		DNSKEY => RD::DnsKey { flags: r.u16b(), proto: r.u8b(), alg: r.u8b(), key: blob(r, 65531) },
		DS => RD::DS { tag: r.u16b(), alg: r.u8b(), dt: r.u8b(), digest: blob(r, 65531) },
		RRSIG => {
			let signer = any_name(r);
			let most = 65535 - 18 - signer.wire().len();
			RD::RRSig(Sig { ty: r.u16b(), alg: r.u8b(), labels: r.u8b(), ttl: r.u32b(), exp: r.u32b(), inc: r.u32b(), tag: r.u16b(), signer, sig: blob(r, most) })
		},
		NSEC => RD::NSec { next: any_name(r), types: any_types(r) },
		_ => {
			let (s, h) = (r.size(255), r.size(255));
			RD::NSec3 { algo: r.u8b(), flags: r.u8b(), iter: r.u16b(), salt: r.bytes(s), next: r.bytes(h), types: any_types(r) }
		},
	}
}
/// Text that likes to break JSON
pub fn any_text(r: &mut Rng) -> String {
	let n = r.below(12);
	(0..n).map(|_| match r.below(10) {
		0 => '"', 1 => '\\', 2 => *r.pick(&['\n', '\t', '\0', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\r']), 3 => *r.pick(&['\u{2028}', '\u{feff}', '\u{1f600}', '\u{e9}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}']),
		4 => *r.pick(&['{', '}', '[', ']', ':', ',', '/']), _ => *r.pick(&['a', 'n', 'u', '0', ' ', '\'']),
	}).collect()
}
pub fn any_rec(r: &mut Rng) -> Rec {
	let ty = *r.pick(&SUPPORTED);
	let n = any_name(r);
	Rec::new(&n, any_rd(r, ty))
}

/// The record written through its own struct type rather than the enum
fn write_inner(rr: &RR, ttl: u32, out: &mut Vec<u8>) {
	match rr {
		RR::A(x) => write_rr(x, ttl, out), RR::AAAA(x) => write_rr(x, ttl, out), RR::NS(x) => write_rr(x, ttl, out), RR::Txt(x) => write_rr(x, ttl, out),
		RR::TLSA(x) => write_rr(x, ttl, out), RR::CName(x) => write_rr(x, ttl, out), RR::DName(x) => write_rr(x, ttl, out), RR::DnsKey(x) => write_rr(x, ttl, out),
		RR::DS(x) => write_rr(x, ttl, out), RR::RRSig(x) => write_rr(x, ttl, out), RR::NSec(x) => write_rr(x, ttl, out), RR::NSec3(x) => write_rr(x, ttl, out),
	}
}

// ---------------------------------------------------------------- C10

fn c10_round(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let n = match r.below(4) { 0 => r.range(2, 12), _ => 1 };
	let recs: Vec<Rec> = (0..n).map(|_| any_rec(&mut r)).collect();
	c.artifact("records", recs.iter().map(|x| format!("{:?}\n", x)).collect::<String>().chars().take(4000).collect());
	let mut all = Vec::new();
	for rec in recs.iter() {
		let rr = rec.lib();
		let ttl = r.u32b();
		let want = rec.wire(ttl);
		let at = all.len();
		guard("write_rr", || write_rr(&rr, ttl, &mut all))?;
		c.eval();
		c.nontrivial(fnv(&want));
		ensure!(all[at..] == want[..], "type {} written as\n{}\nnot\n{}", rec.ty(), hex(&all[at..]), hex(&want));
		let mut inner = Vec::new();
		guard("write_rr", || write_inner(&rr, ttl, &mut inner))?;
		ensure!(inner == want, "type {} written as\n{}\nnot\n{}", rec.ty(), hex(&inner), hex(&want));
		let mut data = vec![7];
		guard("write data", || rr.write_u16_len_prefixed_data(&mut data))?;
		let rd = rec.rd.rdata();
		ensure!(data[0] == 7 && data[1..3] == (rd.len() as u16).to_be_bytes() && data[3..] == rd[..], "data of type {} written as\n{}", rec.ty(), hex(&data[1..]));
		ensure!(rr.ty() == rec.ty() && Record::name(&rr).as_str() == rec.name.text(), "type or name of a record of type {} is wrong", rec.ty());
		let got = guard("parse_rr_stream", || parse_rr_stream(&want))?;
		ensure!(got.as_ref().map(|g| g.len() == 1 && g[0] == rr) == Ok(true), "type {} reads back as {:?}", rec.ty(), got.map(|g| g.iter().map(Rec::from_lib).collect::<Vec<_>>()));
		c.count(&format!("round trips of type {}", rec.ty()));
	}
	let got = guard("parse_rr_stream", || parse_rr_stream(&all))?;
	c.eval();
	match got {
		Ok(g) => {
			let g: Vec<Rec> = g.iter().map(Rec::from_lib).collect();
			ensure!(g == recs, "a stream of {} records reads back as {:?}", recs.len(), g);
		},
		Err(()) => viol!("a stream of {} written records was refused", recs.len()),
	}
	if n > 1 { c.count("streams_of_several"); }
	c.sample(|| recs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" | "));
	Ok(())
}

/// Streams of very many records, of which the last may be spoilt
fn c10_long(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let n = match r.below(4) { 0 => r.range(60, 300), 1 => r.range(250, 1100), 2 => r.range(1000, 4200), _ => r.range(4000, 9000) };
	let some: Vec<Rec> = (0..40).map(|_| { let ty = *r.pick(&SUPPORTED); let rd = crate::c_query::small_rd(&mut r, ty); Rec::new(&any_name(&mut r), rd) }).collect();
	let recs: Vec<&Rec> = (0..n).map(|_| r.pick(&some)).collect();
	let mut all = Vec::new();
	for x in recs.iter() { let rr = x.lib(); guard("write_rr", || write_rr(&rr, 60, &mut all))?; }
	let want: Vec<u8> = recs.iter().flat_map(|x| x.wire(60)).collect();
	ensure!(all == want, "{} records were written as {} bytes, not {}", n, all.len(), want.len());
	c.nontrivial(fnv(&all));
	c.eval();
	let got = guard("parse_rr_stream", || parse_rr_stream(&all))?.map_err(|()| format!("a stream of {} records was refused", n))?;
	ensure!(got.len() == n, "a stream of {} records reads back as {}", n, got.len());
	for (g, w) in got.iter().zip(recs.iter()) { ensure!(Rec::from_lib(g) == **w, "{} reads back as {}", w, Rec::from_lib(g)); }
	c.count("streams_of_very_many");
	let cut = 1 + r.below(recs[n - 1].wire(60).len() - 1);
	all.truncate(all.len() - cut);
	c.eval();
	ensure!(guard("parse_rr_stream", || parse_rr_stream(&all))?.is_err(), "a stream of {} records without its last {} bytes was read", n, cut);
	Ok(())
}

/// Judges what the stream parser makes of some bytes
pub fn judge_stream(c: &mut Case, b: &[u8]) -> R {
	let want = read_stream(b);
	let got = guard("parse_rr_stream", || parse_rr_stream(b))?;
	c.eval();
	let got: Result<Vec<Rec>, ()> = got.map(|g| g.iter().map(Rec::from_lib).collect());
	match (&want, &got) {
		(Read::Ok(w), Ok(g)) => { ensure!(w == g, "{} denotes {:?}, not {:?}", hex(b), w, g); c.count("well_formed_accepted"); },
		(Read::Ok(w), Err(())) => viol!("{} is well-formed ({:?}) but was refused", hex(b), w),
		(Read::Bad(why), Ok(g)) => viol!("{} is not well-formed ({}) but was read as {:?}", hex(b), why, g),
		(Read::Bad(why), Err(())) => c.count(&format!("refused: {}", why)),
		(Read::Either(Some(w)), Ok(g)) => { ensure!(w == g, "{} denotes {:?}, not {:?}", hex(b), w, g); c.count("unusual_accepted"); },
		(Read::Either(_), _) => c.count("unusual"),
	}
	Ok(())
}

/// Another encoding of the same record, and how it was made
pub fn vary(r: &mut Rng, rec: &Rec, ttl: u32) -> Vec<u8> {
	let mut o = rec.name.wire();
	let up = |r: &mut Rng, b: &mut [u8]| for c in b.iter_mut() { if c.is_ascii_lowercase() && r.chance(1, 2) { *c = c.to_ascii_uppercase(); } };
	// length bytes are at most 63, so only letters change
	if r.chance(1, 2) { up(r, &mut o); }
	o.extend(rec.ty().to_be_bytes());
	o.extend([0, 1]);
	o.extend(ttl.to_be_bytes());
	let mut rd = rec.rd.rdata();
	match &rec.rd {
		RD::Txt(d) => {
			rd.clear();
			let mut i = 0;
			while i < d.len() {
				let n = r.range(0, (d.len() - i).min(255));
				if rd.len() + 1 + n + (d.len() - i) * 2 > 65535 { return rec.wire(ttl); }
				rd.push(n as u8);
				rd.extend(&d[i..i + n]);
				i += n;
			}
			if rd.is_empty() || r.chance(1, 5) { rd.push(0); }
		},
		RD::NS(_) | RD::CName(_) | RD::DName(_) => up(r, &mut rd),
		RD::NSec { next, .. } => { let n = next.wire().len(); up(r, &mut rd[..n]) },
		RD::RRSig(s) => { let n = s.signer.wire().len(); up(r, &mut rd[18..18 + n]) },
		_ => {},
	}
	if rd.len() > 65535 { return rec.wire(ttl); }
	o.extend((rd.len() as u16).to_be_bytes());
	o.extend(rd);
	o
}
fn small_rec(r: &mut Rng) -> Rec {
	loop { let x = any_rec(r); if x.rd.rdata().len() < 300 { return x; } }
}
fn c10_decode(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	for _ in 0..8 {
		let n = r.range(1, 3);
		let mut b = Vec::new();
		let mut starts = Vec::new();
		for _ in 0..n { starts.push(b.len()); let x = small_rec(&mut r); let ttl = r.u32b(); b.extend(vary(&mut r, &x, ttl)); }
		c.nontrivial(fnv(&b));
		judge_stream(c, &b)?;
		for _ in 0..r.range(1, 4) {
			let mut m = b.clone();
			let s = *r.pick(&starts);
			// header of the record after its name
			let h = read_name(&b, s, b.len(), &[]).map(|x| x.1).unwrap_or(0);
			let dlen = if h + 10 <= b.len() { u16::from_be_bytes([b[h + 8], b[h + 9]]) } else { 0 };
			match r.below(12) {
				0 => { let n = r.range(0, m.len()); m.truncate(n); },
				1 => { let i = r.below(m.len()); m[i] ^= 1 << r.below(8); },
				2 => { let i = r.below(m.len()); m[i] = r.u8b(); },
				3 => { let i = r.range(0, m.len()); m.insert(i, r.u8b()); },
				4 => { let i = r.below(m.len()); m.remove(i); },
				5 if h > 0 => { let d = dlen.wrapping_add(*r.pick(&[1u16, 2, 0xffff, 0xfffe, 3, 4])); m[h + 8..h + 10].copy_from_slice(&d.to_be_bytes()); },
				6 if h > 0 => { let t = if r.chance(1, 2) { *r.pick(&SUPPORTED) } else { r.u16b() }; m[h..h + 2].copy_from_slice(&t.to_be_bytes()); },
				7 if h > 0 => { let t = *r.pick(&[0u16, 2, 3, 4, 254, 255, 256, 257, 0x8001]); m[h + 2..h + 4].copy_from_slice(&t.to_be_bytes()); },
				// a byte more or less of data, properly accounted for
				8 if h > 0 && dlen < 65535 => { let e = h + 10 + dlen as usize; m.insert(e, r.u8b()); m[h + 8..h + 10].copy_from_slice(&(dlen + 1).to_be_bytes()); },
				9 if h > 0 && dlen > 0 => { let k = r.range(1, (dlen as usize).min(6)); let e = h + 10 + dlen as usize; m.drain(e - k..e); m[h + 8..h + 10].copy_from_slice(&(dlen - k as u16).to_be_bytes()); },
				10 if h > 0 && dlen > 0 => { let i = h + 10 + r.below(dlen as usize); m[i] = *r.pick(&[0, 0xc0, 0x40, 0x80, 33, 32, 63, 64, b'.', b'"', b' ', 0x7f, 0xff]); },
				_ => { let i = r.below(h.max(1)); m[i] = *r.pick(&[0, 0xc0, 0x40, 0x80, 63, 64, b'.', b'"', b' ', 0x7f, 0xff]); },
			}
			judge_stream(c, &m)?;
		}
	}
	Ok(())
}
/// Bitmaps built by hand
fn c10_bitmap(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let mut bm = Vec::new();
	let mut w = 0usize;
	for _ in 0..r.range(0, 6) {
		let len = match r.below(6) { 0 => *r.pick(&[0, 33, 34, 64, 128, 255]), 1 => 32, _ => r.range(1, 32) };
		let mut m = r.bytes(len);
		if r.chance(1, 2) { for x in m.iter_mut() { if *x & 1 == 0 { *x = 0; } } }
		if r.chance(4, 5) { if let Some(l) = m.last_mut() { *l |= 1 << r.below(8); } }
		bm.push(w as u8);
		bm.push(len as u8);
		bm.extend(m);
		if r.chance(1, 20) { continue; }
		w += match r.below(6) { 0 => 255 - w.min(255), 1 => r.range(1, 100), _ => 1 };
		if w > 255 { break; }
	}
	if r.chance(1, 6) { let n = r.range(0, bm.len()); bm.truncate(n); }
	let owner = any_name(&mut r);
	let mut rd;
	let ty = if r.chance(1, 2) { rd = any_name(&mut r).wire(); NSEC } else {
		rd = vec![1, 0, 0, r.byte()];
		let n = r.size(30); rd.push(n as u8); rd.extend(r.bytes(n));
		rd.push(20); rd.extend(r.bytes(20));
		NSEC3
	};
	rd.extend(bm);
	let mut b = owner.wire();
	b.extend(ty.to_be_bytes()); b.extend([0, 1, 0, 0, 0, 9]); b.extend((rd.len() as u16).to_be_bytes()); b.extend(rd);
	c.nontrivial(fnv(&b));
	judge_stream(c, &b)
}
/// Small spaces exhaustively: the case index says which
fn c10_enum(c: &mut Case) -> R {
	let i = c.idx as usize;
	if i < 256 {
		// every label length, and every byte in a label
		let mut b = vec![i as u8];
		b.extend(vec![b'a'; i.max(1)]);
		b.extend([0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
		judge_stream(c, &b)?;
		let mut b = vec![3, b'x', i as u8, b'y', 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4];
		judge_stream(c, &b)?;
		b[0] = 1; b.remove(1); b.remove(2);
		judge_stream(c, &b)?;
		// every data length for the types of fixed or minimal length
		for ty in SUPPORTED {
			for fill in [0u8, 1, 0xff] {
				let mut b = vec![0]; b.extend(ty.to_be_bytes()); b.extend([0, 1, 0, 0, 0, 0]); b.extend((i as u16).to_be_bytes()); b.extend(vec![fill; i]);
				judge_stream(c, &b)?;
			}
		}
		// names around the length limit
		if i >= 2 {
			for k in [62usize, 63] {
				let mut w = Vec::new();
				let mut left = i - 1;
				while left > 0 { let l = (k).min(left - 1).max(1); if left < 2 { break; } w.push(l as u8); w.extend(vec![b'n'; l]); left -= l + 1; }
				w.push(0);
				w.extend([0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
				judge_stream(c, &w)?;
			}
		}
	} else {
		// every type and class
		for j in 0..64 {
			let v = ((i - 256) * 64 + j) as u16;
			for d in [&[1u8, 2, 3, 4][..], &[0], &[0; 16], &[]] {
				let mut b = vec![1, b'n', 0]; b.extend(v.to_be_bytes()); b.extend([0, 1, 0, 0, 0, 0]); b.extend((d.len() as u16).to_be_bytes()); b.extend(d);
				judge_stream(c, &b)?;
			}
			let mut b = vec![1, b'n', 0, 0, 1]; b.extend(v.to_be_bytes()); b.extend([0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
			judge_stream(c, &b)?;
		}
	}
	c.nontrivial(c.idx);
	c.count("enumerated");
	Ok(())
}

// ---------------------------------------------------------------- C11

fn near(r: &mut Rng, rd: &RD) -> RD {
	let near_bytes = |r: &mut Rng, d: &Vec<u8>| -> Vec<u8> {
		let mut d = d.clone();
		for _ in 0..r.range(0, 2) {
			match r.below(6) {
				0 => { let n = r.below(d.len() + 1); d.truncate(n); },
				1 => d.push(r.u8b()),
				2 | 3 if !d.is_empty() => { let i = r.below(d.len()); d[i] = d[i].wrapping_add(*r.pick(&[1, 0xff, 0x80])); },
				4 => { let n = *r.pick(&[0usize, 1, 254, 255, 256, 510, 511]); d.resize(n, 0x41); },
				_ => { let n = *r.pick(&[1usize, 255, 256]); d.extend(vec![0; n]); },
			}
		}
		d.truncate(4000);
		d
	};
	let near_name = |r: &mut Rng, n: &Nm| -> Nm {
		let mut l = n.0.clone();
		match r.below(6) {
			0 if !l.is_empty() => { l.remove(0); },
			1 if !l.is_empty() => { let i = r.below(l.len()); l[i].push(b'a'); },
			2 if !l.is_empty() => { let i = r.below(l.len()); let k = l[i].len() - 1; l[i][k] = *r.pick(b"-az0_~!"); },
			3 => l.insert(0, any_label(r)),
			4 if !l.is_empty() => { let i = r.below(l.len()); if l[i].len() > 1 { l[i].pop(); } },
			_ => { return any_name(r); },
		}
		let m = Nm(l);
		if m.text_len() > 254 || m.0.iter().any(|l| l.len() > 63) { n.clone() } else { m }
	};
	match rd {
		RD::A(a) => { let mut a = *a; let i = r.below(4); a[i] = r.u8b(); RD::A(a) },
		RD::AAAA(a) => { let mut a = *a; let i = r.below(16); a[i] = r.u8b(); RD::AAAA(a) },
		RD::NS(n) => RD::NS(near_name(r, n)),
		RD::CName(n) => RD::CName(near_name(r, n)),
		RD::DName(n) => RD::DName(near_name(r, n)),
		RD::Txt(d) => RD::Txt(near_bytes(r, d)),
		RD::Tlsa(a, b, k, d) => { if r.chance(1, 3) { let (mut a, mut b, mut k) = (*a, *b, *k); *[&mut a, &mut b, &mut k][r.below(3)] = r.u8b(); RD::Tlsa(a, b, k, d.clone()) } else { RD::Tlsa(*a, *b, *k, near_bytes(r, d)) } },
		RD::DnsKey { flags, proto, alg, key } => {
			let (mut f, mut p, mut a) = (*flags, *proto, *alg);
			match r.below(5) { 0 => f = r.u16b(), 1 => p = r.u8b(), 2 => a = r.u8b(), _ => {} }
			RD::DnsKey { flags: f, proto: p, alg: a, key: near_bytes(r, key) }
		},
		RD::DS { tag, alg, dt, digest } => {
			let (mut t, mut a, mut d) = (*tag, *alg, *dt);
			match r.below(5) { 0 => t = r.u16b(), 1 => a = r.u8b(), 2 => d = r.u8b(), _ => {} }
			RD::DS { tag: t, alg: a, dt: d, digest: near_bytes(r, digest) }
		},
		RD::RRSig(s) => {
			let mut s = s.clone();
			match r.below(8) { 0 => s.ty = r.u16b(), 1 => s.labels = r.u8b(), 2 => s.ttl = r.u32b(), 3 => s.exp = r.u32b(), 4 => s.inc = r.u32b(), 5 => s.tag = r.u16b(), 6 => s.signer = near_name(r, &s.signer), _ => s.sig = near_bytes(r, &s.sig) }
			RD::RRSig(s)
		},
		RD::NSec { next, types } => if r.chance(1, 2) { RD::NSec { next: near_name(r, next), types: types.clone() } } else { RD::NSec { next: next.clone(), types: any_types(r) } },
		RD::NSec3 { algo, flags, iter, salt, next, types } => {
			let mut n = next.clone(); let mut s = salt.clone(); let mut t = types.clone(); let (mut a, mut f, mut i) = (*algo, *flags, *iter);
			match r.below(6) { 0 => n = near_bytes(r, next), 1 => s = near_bytes(r, salt), 2 => t = any_types(r), 3 => a = r.u8b(), 4 => f = r.u8b(), _ => i = r.u16b() }
			n.truncate(255); s.truncate(255);
			RD::NSec3 { algo: a, flags: f, iter: i, salt: s, next: n, types: t }
		},
	}
}

/// Everything the comparison operators of one pair say
fn cmp_all<T: Ord + PartialOrd + PartialEq + Clone>(a: &T, b: &T) -> Result<Ordering, String> {
	let o = a.cmp(b);
	if b.cmp(a) != o.reverse() { return Err("cmp is not antisymmetric".into()); }
	if a.partial_cmp(b) != Some(o) { return Err(format!("partial_cmp gives {:?}, cmp {:?}", a.partial_cmp(b), o)); }
	if (a < b) != o.is_lt() || (a > b) != o.is_gt() || (a <= b) != o.is_le() || (a >= b) != o.is_ge() { return Err("operators disagree with cmp".into()); }
	if (a == b) != o.is_eq() || (a != b) != o.is_ne() { return Err(format!("== gives {}, cmp {:?}", a == b, o)); }
	if a.clone().max(b.clone()) != *(if o.is_gt() { a } else { b }) { return Err("max disagrees with cmp".into()); }
	Ok(o)
}
fn cmp_inner(a: &RR, b: &RR) -> Option<Result<Ordering, String>> {
	Some(match (a, b) {
		(RR::A(a), RR::A(b)) => cmp_all(a, b), (RR::AAAA(a), RR::AAAA(b)) => cmp_all(a, b), (RR::NS(a), RR::NS(b)) => cmp_all(a, b), (RR::Txt(a), RR::Txt(b)) => cmp_all(a, b),
		(RR::TLSA(a), RR::TLSA(b)) => cmp_all(a, b), (RR::CName(a), RR::CName(b)) => cmp_all(a, b), (RR::DName(a), RR::DName(b)) => cmp_all(a, b), (RR::DnsKey(a), RR::DnsKey(b)) => cmp_all(a, b),
		(RR::DS(a), RR::DS(b)) => cmp_all(a, b), (RR::RRSig(a), RR::RRSig(b)) => cmp_all(a, b), (RR::NSec(a), RR::NSec(b)) => cmp_all(a, b), (RR::NSec3(a), RR::NSec3(b)) => cmp_all(a, b),
		_ => return None,
	})
}
fn c11_order(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let ty = *r.pick(&SUPPORTED);
	let name = any_name(&mut r);
	let mut base = any_rd(&mut r, ty);
	while base.rdata().len() > 3000 { base = any_rd(&mut r, ty); }
	let mut recs = vec![Rec::new(&name, base)];
	for _ in 0..r.range(2, 7) {
		let b = r.pick(&recs).clone();
		let x = match r.below(8) { 0 => any_rec(&mut r), 1 => b, 2 => Rec::new(&any_name(&mut r), b.rd), _ => Rec::new(&b.name, near(&mut r, &b.rd)) };
		if x.rd.rdata().len() < 5000 { recs.push(x); }
	}
	let rrs: Vec<RR> = recs.iter().map(|x| x.lib()).collect();
	c.artifact("records", recs.iter().map(|x| format!("{:?}\n", x)).collect());
	let n = rrs.len();
	let mut m = vec![vec![Ordering::Equal; n]; n];
	for i in 0..n { for j in 0..n {
		let (a, b) = (&rrs[i], &rrs[j]);
		let o = guard("comparison", || cmp_all(a, b))?.map_err(|e| format!("{}: {:?} and {:?}", e, recs[i], recs[j]))?;
		m[i][j] = o;
		c.eval();
		if let Some(x) = guard("comparison", || cmp_inner(a, b))? {
			let x = x.map_err(|e| format!("{}: {:?} and {:?}", e, recs[i], recs[j]))?;
			ensure!(x == o, "the enum and the struct compare differently: {:?} and {:?}", recs[i], recs[j]);
		}
		ensure!((o == Ordering::Equal) == (recs[i] == recs[j]), "{:?} and {:?} compare {:?}", recs[i], recs[j], o);
		if recs[i].name == recs[j].name && recs[i].ty() == recs[j].ty() && [A, AAAA, NS, TXT, TLSA, DNSKEY, DS].contains(&recs[i].ty()) {
			let want = recs[i].rd.rdata().cmp(&recs[j].rd.rdata());
			ensure!(o == want, "type {}: {} compares {:?} to {}, canonically {:?}", recs[i].ty(), recs[i], o, recs[j], want);
			if i < j && o != Ordering::Equal { c.count(&format!("ordered pairs of type {}", recs[i].ty())); c.nontrivial(fnv(format!("{}{}", recs[i], recs[j]).as_bytes())); }
		}
	} }
	for i in 0..n { for j in 0..n { for k in 0..n {
		if m[i][j].is_le() && m[j][k].is_le() { ensure!(m[i][k].is_le(), "not transitive: {:?}, {:?}, {:?}", recs[i], recs[j], recs[k]); }
	} } }
	// Sorting gives one result however it is done
	let mut s1 = rrs.clone();
	let mut s2 = rrs.clone();
	s2.reverse();
	guard("sort", || { s1.sort(); s2.sort_unstable(); })?;
	ensure!(s1 == s2, "sorting depends on the initial order: {:?}", recs);
	let set: std::collections::BTreeSet<RR> = rrs.iter().cloned().collect();
	let truth: HashSet<Rec> = recs.iter().cloned().collect();
	ensure!(set.len() == truth.len(), "a BTreeSet of {} distinct records holds {}", truth.len(), set.len());
	Ok(())
}
fn c11_tags(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let n = match r.below(10) { 0 => 65531, 1 => r.range(0, 65531), _ => r.size(2100) };
	let key = match r.below(5) { 0 => vec![0xff; n], 1 => vec![0; n], 2 => { let mut k = vec![0xff; n]; if n > 0 { k[n - 1] = 0; } k }, _ => r.bytes(n) };
	let (flags, protocol, alg) = (r.u16b(), r.u8b(), r.u8b());
	let alg = if alg == 1 { 2 } else { alg };
	let k = rr::DnsKey { name: ".".try_into().unwrap(), flags, protocol, alg, pubkey: key.clone() };
	let got = guard("key_tag", || k.key_tag())?;
	let want = key_tag(flags, protocol, alg, &key);
	c.eval();
	c.nontrivial(fnv(&key) ^ (flags as u64) << 20 ^ alg as u64);
	ensure!(got == want, "key tag of {} {} {} {} is {}, not {}", flags, protocol, alg, hex(&key), want, got);
	c.count("key_tags");
	Ok(())
}
fn c11_masks(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let mut t = if c.idx < 1024 { (0..64u16).map(|i| i * 1024 + c.idx as u16).collect() } else { any_types(&mut r) };
	if c.idx >= 1024 && r.chance(1, 20) { t = (0..=65535).filter(|_| r.chance(1, 2)).collect(); }
	let mut l: Vec<u16> = t.iter().copied().collect();
	r.shuffle(&mut l);
	if !l.is_empty() { let d = *r.pick(&l); l.push(d); }
	let m = guard("from_types", || rr::NSecTypeMask::from_types(&l))?;
	let got: Types = guard("contains_type", || unmask(&m))?;
	c.eval();
	c.nontrivial(fnv(format!("{:?}", t).as_bytes()));
	ensure!(got == t, "a mask from {:?} contains {:?}", t, got);
	ensure!(t.is_empty() == (m == rr::NSecTypeMask::new()), "a mask from {:?} compares wrong to an empty one", t);
	let rec = Rec::new(&Nm::new("a."), RD::NSec { next: Nm::root(), types: t.clone() });
	let rrs = guard("parse_rr_stream", || parse_rr_stream(&rec.wire(0)))?;
	match rrs.as_ref().map(|r| &r[..]) {
		Ok([RR::NSec(n)]) => { ensure!(n.types == m, "read mask differs from the constructed one: {:?}", t); let g = unmask(&n.types); ensure!(g == t, "a mask of {:?} read as {:?}", t, g); },
		_ => viol!("a mask of {:?} cannot be read", t),
	}
	c.add("types_in_masks", t.len() as u64);
	Ok(())
}

// ---------------------------------------------------------------- C12

fn name_model(s: &str) -> Option<Vec<String>> {
	if s == "." { return Some(vec![]); }
	if !s.ends_with('.') || s.len() > 255 { return None; }
	if !s.bytes().all(|b| (0x21..0x7f).contains(&b) && b != b'"') { return None; }
	let l: Vec<String> = s[..s.len() - 1].split('.').map(|x| x.to_ascii_lowercase()).collect();
	if l.iter().any(|x| x.is_empty() || x.len() > 63) { return None; }
	Some(l)
}
fn judge_name(c: &mut Case, s: &str) -> R {
	let want = name_model(s);
	let got = guard("Name::try_from", || Name::try_from(s))?;
	let got2 = guard("Name::try_from", || Name::try_from(s.to_string()))?;
	c.eval();
	ensure!(got == got2, "{:?} is accepted as one kind of string but not another", s);
	match (want, got) {
		(None, Err(())) => c.count("names_refused"),
		(None, Ok(n)) => viol!("{:?} was accepted as the name {}", s, n.as_str()),
		(Some(_), Err(())) => viol!("{:?} was refused", s),
		(Some(l), Ok(n)) => {
			let text = if l.is_empty() { ".".to_string() } else { l.iter().map(|x| x.clone() + ".").collect() };
			ensure!(n.as_str() == text && n.to_string() == text && &*n == text.as_str(), "{:?} became {:?}", s, n.as_str());
			ensure!(format!("{:>300}|{:<5}|", n, n) == format!("{:>300}|{:<5}|", text, text), "{:?} prints differently when padded", s);
			let up = Name::try_from(s.to_ascii_uppercase().as_str());
			ensure!(up.as_ref() == Ok(&n), "{:?} and its upper case differ", s);
			ensure!(n.labels() as usize == l.len(), "{:?} has {} labels, not {}", s, l.len(), n.labels());
			for k in 0..=255u8 {
				if k as usize > l.len() + 3 && k < 253 { continue; }
				let want = if k as usize > l.len() { None } else if k == 0 { Some(".".to_string()) } else { Some(l[l.len() - k as usize..].iter().map(|x| x.clone() + ".").collect()) };
				let got = guard("trailing_n_labels", || n.trailing_n_labels(k).map(|x| x.to_string()))?;
				ensure!(got == want, "the last {} labels of {:?} are {:?}, not {:?}", k, s, want, got);
				if let Some(g) = got { ensure!(Name::try_from(g.as_str()).map(|m| m.as_str() == g) == Ok(true), "the last {} labels of {:?} are not a name", k, s); }
			}
			c.count("names_accepted");
		},
	}
	Ok(())
}
fn c12_texts(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	for _ in 0..6 {
		let n = any_name(&mut r);
		let mut s: Vec<char> = n.text().chars().collect();
		if r.chance(1, 2) { for ch in s.iter_mut() { if r.chance(1, 2) { *ch = ch.to_ascii_uppercase(); } } }
		c.nontrivial(fnv(n.text().as_bytes()));
		judge_name(c, &s.iter().collect::<String>())?;
		for _ in 0..r.range(0, 3) {
			let i = r.below(s.len() + 1);
			let ch = *r.pick(&['.', '"', ' ', '\\', '\u{7f}', '\u{e9}', '\u{131}', '\u{212a}', '\0', 'A', '!', '~', '*', '\u{ff0e}', '\u{2e}', '\n']);
			match r.below(4) { 0 => s.insert(i, ch), 1 if i < s.len() => s[i] = ch, 2 if i < s.len() => { s.remove(i); }, _ => { let k = *r.pick(&[1, 60, 63, 64]); for _ in 0..k { s.insert(i, ch); } } }
		}
		judge_name(c, &s.iter().collect::<String>())?;
	}
	// lengths around the limits
	let total = r.range(240, 262);
	let mut t = String::new();
	while t.len() < total { let l = r.range(1, 64).min(total - t.len()); t += &"n".repeat(l.saturating_sub(1).max(if t.len() + 1 >= total { 0 } else { 1 })); t.push('.'); }
	judge_name(c, &t)
}
fn c12_enum(c: &mut Case) -> R {
	// every string of up to three characters of a telling alphabet, every character in each position, every label count
	const AL: [char; 12] = ['.', 'a', 'Z', '"', '\\', ' ', '~', '!', '*', '\u{e9}', '0', '\u{0}'];
	let i = c.idx as usize;
	c.nontrivial(c.idx);
	if i < 12 * 12 {
		for k in 0..=12 {
			let mut s: String = [AL[i / 12], AL[i % 12]].iter().collect();
			if k < 12 { s.push(AL[k]); }
			judge_name(c, &s)?;
			for k2 in AL { let mut s = s.clone(); s.push(k2); judge_name(c, &s)?; }
		}
		judge_name(c, "")?;
		judge_name(c, &AL[i / 12].to_string())?;
	} else if i < 144 + 300 {
		let v = i - 144;
		let ch = char::from_u32(v as u32).unwrap();
		for s in [format!("{}.", ch), format!("a{}b.", ch), format!("a.{}.", ch), format!("a.b{}", ch), format!("{}a.c.", ch)] { judge_name(c, &s)?; }
		judge_name(c, &format!("{}.", "x".repeat(v)))?;
		judge_name(c, &format!("a.{}.b.", "x".repeat(v)))?;
		judge_name(c, &"a.".repeat(v))?;
		judge_name(c, &format!("bb.{}", "a.".repeat(v)))?;
		judge_name(c, &"a".repeat(v))?;
	}
	Ok(())
}

// ---------------------------------------------------------------- C13

pub fn type_json(ty: u16) -> &'static str {
	match ty { A => "a", AAAA => "aaaa", NS => "ns", TXT => "txt", TLSA => "tlsa", CNAME => "cname", DNAME => "dname", DNSKEY => "dnskey", DS => "ds", RRSIG => "rrsig", NSEC => "nsec", _ => "nsec3" }
}
fn type_name(s: &str) -> Option<u16> {
	Some(match s { "A" => A, "AAAA" => AAAA, "NS" => NS, "TXT" => TXT, "TLSA" => TLSA, "CNAME" => CNAME, "DNAME" => DNAME, "DNSKEY" => DNSKEY, "DS" => DS, "RRSIG" => RRSIG, "NSEC" => NSEC, "NSEC3" => NSEC3, _ => return None })
}
/// The record a JSON object denotes
pub fn from_json(j: &json::J) -> Result<Rec, String> {
	let need = |k: &str| j.get(k).ok_or(format!("no field {}", k));
	let st = |k: &str| -> Result<String, String> { Ok(need(k)?.str().ok_or(format!("{} is no string", k))?.to_string()) };
	let num = |k: &str, max: u64| -> Result<u64, String> { need(k)?.int().filter(|n| *n <= max).ok_or(format!("{} is no fitting number", k)) };
	let nm = |k: &str| -> Result<Nm, String> { let s = st(k)?; if name_model(&s).is_none() { return Err(format!("{} is not a name: {:?}", k, s)); } Ok(Nm::new(&s)) };
	let hx = |k: &str| -> Result<Vec<u8>, String> { need(k)?.hex().ok_or(format!("{} is not hex", k)) };
	let by = |k: &str| -> Result<Vec<u8>, String> { need(k)?.bytes().ok_or(format!("{} is no byte array", k)) };
	let types = |k: &str| -> Result<Types, String> {
		let mut t = Types::new();
		for x in need(k)?.arr().ok_or("types is no array")? {
			let v = match x { json::J::Str(s) => type_name(s).ok_or(format!("type {}", s))?, x => x.int().and_then(|n| u16::try_from(n).ok()).ok_or("types")? };
			if !t.insert(v) { return Err(format!("type {} twice", v)); }
		}
		Ok(t)
	};
	let ty = st("type")?;
	let name = nm("name")?;
	let n_fields = if let json::J::Obj(v) = j { v.len() } else { 0 };
	let (rd, want) = match ty.as_str() {
		"a" => (RD::A(by("address")?.try_into().map_err(|_| "address")?), 3),
		"aaaa" => (RD::AAAA(by("address")?.try_into().map_err(|_| "address")?), 3),
		"ns" => (RD::NS(nm("ns")?), 3),
		"txt" => (RD::Txt(match need("contents")? { json::J::Str(s) => s.clone().into_bytes(), x => x.bytes().ok_or("contents")? }), 3),
		"tlsa" => (RD::Tlsa(num("usage", 255)? as u8, num("selector", 255)? as u8, num("data_ty", 255)? as u8, hx("data")?), 6),
		"cname" => (RD::CName(nm("canonical_name")?), 3),
		"dname" => (RD::DName(nm("delegation_name")?), 3),
		"dnskey" => (RD::DnsKey { flags: num("flags", 65535)? as u16, proto: num("protocol", 255)? as u8, alg: num("alg", 255)? as u8, key: hx("pubkey")? }, 6),
		"ds" => (RD::DS { tag: num("key_tag", 65535)? as u16, alg: num("alg", 255)? as u8, dt: num("digest_type", 255)? as u8, digest: hx("digest")? }, 6),
		"rrsig" => (RD::RRSig(Sig {
			ty: num("signed_record_type", 65535)? as u16, alg: num("alg", 255)? as u8, labels: num("signed_labels", 255)? as u8, ttl: num("orig_ttl", u32::MAX as u64)? as u32,
			exp: num("expiration", u32::MAX as u64)? as u32, inc: num("inception", u32::MAX as u64)? as u32, tag: num("key_tag", 65535)? as u16, signer: nm("key_name")?, sig: hx("signature")?,
		}), 11),
		"nsec" => (RD::NSec { next: nm("next_name")?, types: types("types")? }, 4),
		"nsec3" => (RD::NSec3 { algo: num("hash_algo", 255)? as u8, flags: num("flags", 255)? as u8, iter: num("hash_iterations", 65535)? as u16, salt: by("salt")?, next: by("next_name_hash")?, types: types("types")? }, 8),
		t => return Err(format!("type {:?}", t)),
	};
	if n_fields < want { return Err("fields".into()); }
	Ok(Rec { name, rd })
}
pub fn c13_records(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	for _ in 0..4 {
		let mut rec = any_rec(&mut r);
		if r.chance(1, 4) { let d = any_text(&mut r).into_bytes(); rec.rd = RD::Txt(d); }
		if r.chance(1, 12) { let mut d = any_text(&mut r).into_bytes(); if !d.is_empty() { d.pop(); } rec.rd = RD::Txt(d); }
		let rr = rec.lib();
		let s = guard("json", || rr.json())?;
		let s2 = guard("json", || Record::json(&rr))?;
		c.eval();
		c.nontrivial(fnv(s.as_bytes()));
		c.reset_artifacts();
		c.artifact("record", format!("{:?}", rec).chars().take(4000).collect());
		c.artifact("json", s.chars().take(8000).collect());
		ensure!(s == s2, "the two ways to get JSON differ for {}", rec);
		let inner = guard("json", || match &rr {
			RR::A(x) => x.json(), RR::AAAA(x) => x.json(), RR::NS(x) => x.json(), RR::Txt(x) => x.json(), RR::TLSA(x) => x.json(), RR::CName(x) => x.json(),
			RR::DName(x) => x.json(), RR::DnsKey(x) => x.json(), RR::DS(x) => x.json(), RR::RRSig(x) => x.json(), RR::NSec(x) => x.json(), RR::NSec3(x) => x.json(),
		})?;
		ensure!(s == inner, "the enum and the struct give different JSON for {}", rec);
		let j = json::parse(&s).map_err(|e| format!("invalid JSON ({}): {}", e, s.chars().take(1500).collect::<String>()))?;
		let back = from_json(&j).map_err(|e| format!("JSON does not denote the record ({}): {}", e, s.chars().take(1500).collect::<String>()))?;
		ensure!(j.get("type").and_then(|t| t.str()) == Some(type_json(rec.ty())), "JSON type of a record of type {}: {}", rec.ty(), s.chars().take(500).collect::<String>());
		ensure!(back == rec, "JSON denotes another record: {}", s.chars().take(1500).collect::<String>());
		c.count(&format!("records of type {} decoded", rec.ty()));
		if rec.name.text().contains('\\') { c.count("names_with_backslashes"); }
		if let RD::Txt(_) = rec.rd { c.count(if s.contains("\"contents\":\"") { "txt_as_string" } else { "txt_as_bytes" }); }
		c.sample(|| s.chars().take(300).collect());
	}
	Ok(())
}
/// TXT data of one and two bytes exhaustively, and every character of the basic plane
pub fn c13_txt(c: &mut Case) -> R {
	let i = c.idx as u32;
	let mut datas: Vec<Vec<u8>> = Vec::new();
	if i < 256 {
		for b in 0..=256u32 { let mut d = vec![i as u8]; if b < 256 { d.push(b as u8); } datas.push(d); }
	} else {
		for k in 0..256u32 { if let Some(ch) = char::from_u32((i - 256) * 256 + k) { datas.push(format!("a{}b", ch).into_bytes()); } }
	}
	for d in datas {
		let rec = Rec::new(&Nm::new("t."), RD::Txt(d));
		let rr = rec.lib();
		let s = guard("json", || rr.json())?;
		c.eval();
		let j = json::parse(&s).map_err(|e| format!("invalid JSON ({}): {:?}", e, s))?;
		let back = from_json(&j).map_err(|e| format!("JSON does not denote the record ({}): {:?}", e, s))?;
		ensure!(back == rec, "JSON denotes another record: {:?}", s);
	}
	c.nontrivial(c.idx);
	c.count("txt_blocks");
	Ok(())
}

// ---------------------------------------------------------------- C14

fn c14_ops(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let mut log = String::new();
	let size = |r: &mut Rng, room: usize| -> usize {
		let n = match r.below(9) { 0 => 0, 1 => 1, 2 | 3 => r.range(2040, 2056), 4 => r.range(4090, 4100), 5 => r.range(0, 65535), 6 => *r.pick(&[31, 32, 33, 64, 255, 256]), 7 => room, _ => r.range(0, 100) };
		n.min(room)
	};
	let mut bufs: Vec<(QueryBuf, Vec<u8>)> = Vec::new();
	let ops = r.range(3, 14);
	for _ in 0..ops {
		let k = if bufs.is_empty() { 0 } else { r.below(10) };
		let res: R = (|| {
			match k {
				0 => {
					let n = size(&mut r, 65535);
					log += &format!("new_zeroed({}) ", n);
					let b = guard("new_zeroed", || QueryBuf::new_zeroed(n as u16))?;
					bufs.push((b, vec![0; n]));
				},
				1 | 2 | 3 | 4 => {
					let i = r.below(bufs.len());
					let room = 65535 - bufs[i].1.len();
					// often exactly to the place where the storage moves
					let n = if r.chance(1, 4) && bufs[i].1.len() < 2049 { (2047 + r.below(4)).saturating_sub(bufs[i].1.len()) } else { size(&mut r, room) };
					let d = r.bytes(n);
					log += &format!("{}.extend({}) ", i, n);
					let b = &mut bufs[i];
					guard("extend_from_slice", || b.0.extend_from_slice(&d))?;
					b.1.extend(&d);
				},
				5 => {
					let i = r.below(bufs.len());
					log += &format!("{}.write ", i);
					for _ in 0..r.range(1, 20) {
						if bufs[i].1.is_empty() { break; }
						let (p, v) = (r.below(bufs[i].1.len()), r.byte());
						let b = &mut bufs[i];
						guard("write", || b.0[p] = v)?;
						b.1[p] = v;
					}
				},
				6 => { let i = r.below(bufs.len()); log += &format!("{}.clone ", i); let b = guard("clone", || bufs[i].0.clone())?; let v = bufs[i].1.clone(); bufs.push((b, v)); },
				7 => {
					let i = r.below(bufs.len());
					log += &format!("{}.copy_from_slice ", i);
					let n = bufs[i].1.len();
					let d = if r.chance(1, 2) { r.bytes(n) } else { vec![r.byte() & 1; n] };
					let b = &mut bufs[i];
					guard("copy_from_slice", || b.0.copy_from_slice(&d))?;
					b.1 = d;
				},
				8 => {
					// the same contents by another way
					let i = r.below(bufs.len());
					let v = bufs[i].1.clone();
					log += &format!("rebuild {} ", i);
					let cut = r.range(0, v.len());
					let b = guard("rebuild", || {
						let mut b = QueryBuf::new_zeroed(cut as u16);
						for x in b.iter_mut() { *x = 0xff; }
						b.copy_from_slice(&v[..cut]);
						for ch in v[cut..].chunks(700) { b.extend_from_slice(ch); }
						b
					})?;
					bufs.push((b, v));
				},
				_ => {
					let i = r.below(bufs.len());
					log += &format!("{}.into_vec ", i);
					let (b, v) = bufs.swap_remove(i);
					let got = guard("into_vec", || b.into_vec())?;
					ensure!(got == v, "into_vec gives {} bytes, expected {}, or other contents", got.len(), v.len());
					c.count("into_vec");
				},
			}
			for (i, (b, v)) in bufs.iter().enumerate() {
				c.eval();
				ensure!(b.len() == v.len(), "buffer {} has length {}, expected {}", i, b.len(), v.len());
				ensure!(b[..] == v[..], "buffer {} of length {} has other contents than expected, first at {:?}", i, v.len(), b.iter().zip(v.iter()).position(|(a, b)| a != b));
				for (j, (b2, v2)) in bufs.iter().enumerate() {
					let (eq, want) = (guard("==", || b == b2)?, v == v2);
					ensure!(eq == want && (b != b2) == !want, "buffers {} and {} compare {}, expected {}", i, j, eq, want);
					if want && i != j { c.count("equal_buffers_compared"); }
				}
				if v.len() > 2048 { c.count("large_buffers"); }
			}
			Ok(())
		})();
		c.reset_artifacts();
		c.artifact("operations", log.clone());
		res?;
		bufs.truncate(4);
	}
	c.nontrivial(fnv(log.as_bytes()));
	c.sample(|| log.clone());
	Ok(())
}
/// Appending beyond the limit
fn c14_over(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let start = match r.below(4) { 0 => 65535, 1 => r.range(65000, 65535), 2 => r.range(0, 2100), _ => r.range(0, 65535) };
	let mut b = guard("new_zeroed", || QueryBuf::new_zeroed(start as u16))?;
	let mut log = format!("new_zeroed({})", start);
	let mut total = start;
	while total <= 65535 || r.chance(1, 2) {
		let n = match r.below(5) { 0 => 65536, 1 => 70000, 2 => 131072, 3 => 65535 - start + 1, _ => r.range(1, 200_000) };
		log += &format!(".extend({})", n);
		c.reset_artifacts();
		c.artifact("operations", log.clone());
		let d = vec![0xa5; n];
		guard("extend_from_slice", || b.extend_from_slice(&d))?;
		// whatever is in there, using it does not panic, either
		guard("use", || { let x = b.clone(); let e = x == b; let l = b.len(); let s: u64 = b.iter().map(|x| *x as u64).sum(); (e, l, s, x.into_vec().len()) })?;
		total += n;
		c.eval();
	}
	c.count("appended_beyond_the_limit");
	c.nontrivial(fnv(log.as_bytes()));
	Ok(())
}

pub fn c13_record_phases() -> Vec<Phase> { vec![Phase::new("txt", 512, 256 + 4352, c13_txt), Phase::new("records", 15_000, 1_000_000, c13_records)] }

pub fn checks() -> Vec<Check> {
	let _: BTreeSet<u8> = BTreeSet::new();
	vec![
		Check {
			id: "C10", rule: "Each case writes generated records of every type (with boundary sizes and names) and reads them back, or reads an unusual, altered, truncated or hand-made encoding; bytes and \
				meaning are compared with an independent codec; or hands records to the response reader with their names compressed in many ways (pointers all over the reach of a pointer, to the root, in chains). All label lengths and bytes, types, classes and short data lengths are enumerated. Non-trivial: a distinct encoding.",
			phases: vec![Phase::new("enum", 256 + 1024, 256 + 1024, c10_enum), Phase::new("wire", 1500, 80_000, crate::c_query::c10_wire), Phase::new("long", 60, 2000, c10_long), Phase::new("bitmap", 10_000, 500_000, c10_bitmap), Phase::new("decode", 6000, 400_000, c10_decode), Phase::new("round", 12_000, 600_000, c10_round)],
			required: &["streams_of_very_many", "well_formed_accepted", "streams_of_several", "refused: bitmap length", "refused: left-over bytes", "refused: class", "refused: type", "refused: label bytes"],
			assumptions: &["what RFCs leave open (empty TXT data, unordered or repeated bitmap windows, compressed names where forbidden, names of exactly 255 bytes of text) may be accepted or not, but not misread"],
			known: vec![],
		},
		Check {
			id: "C11", rule: "Each case compares 3-8 related records pairwise in every way the language offers, and canonically by their reference encoding, checks transitivity and sorting, or computes one key's \
				tag or one type mask. Non-trivial: a distinct ordered pair, key or mask.",
			phases: vec![Phase::new("masks", 1024 + 1500, 1024 + 60_000, c11_masks), Phase::new("tags", 8000, 300_000, c11_tags), Phase::new("order", 15_000, 800_000, c11_order)],
			required: &["ordered pairs of type 1", "ordered pairs of type 2", "ordered pairs of type 16", "ordered pairs of type 28", "ordered pairs of type 43", "ordered pairs of type 48", "ordered pairs of type 52", "key_tags", "types_in_masks"],
			assumptions: &["keys of algorithm 1, whose tag RFC 4034 defines differently, are not generated"],
			known: vec![],
		},
		Check {
			id: "C12", rule: "Each case offers texts (valid names with changed case, near misses, all short strings over a telling alphabet, all first 300 characters, all lengths and label counts around the limits) \
				as names and compares acceptance, printing, equality, label count and every suffix with a model. Non-trivial: a distinct base text.",
			phases: vec![Phase::new("enum", 444, 444, c12_enum), Phase::new("texts", 20_000, 1_000_000, c12_texts)],
			required: &["names_accepted", "names_refused"],
			assumptions: &[],
			known: vec![],
		},
		Check {
			id: "C14", rule: "Each case runs 3-14 operations (create, append, write, clone, rebuild, convert, compare) on query buffers and on byte vectors and compares all contents and all equalities after each, \
				with sizes concentrated where the storage moves to the heap; or appends beyond the limit. Non-trivial: a distinct series of operations.",
			phases: vec![Phase::new("over", 300, 10_000, c14_over), Phase::new("ops", 12_000, 500_000, c14_ops)],
			required: &["equal_buffers_compared", "large_buffers", "into_vec", "appended_beyond_the_limit"],
			assumptions: &[],
			known: vec![],
		},
	]
}
