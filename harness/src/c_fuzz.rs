//! C09: nothing panics, overflows, or uses memory out of proportion, whatever goes in.

use dnssec_prover::query::{ProofBuilder, QueryBuf};
use dnssec_prover::rr::{Name, Record, RR};
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use dnssec_prover::validation::{verify_rr_stream, VerifiedRRStream};

use crate::c_chain::{forge, set_anchors};
use crate::c_codec::*;
use crate::c_query::*;
use crate::dns::*;
use crate::keys::*;
use crate::util::*;
use crate::world::*;
use crate::{ensure, viol};

/// Memory may grow in proportion to the input: a parsed record takes about 8 KiB whatever its size
fn mem_ok(what: &str, peak: isize, input: usize) -> R {
	let max = input as isize * 4096 + (1 << 20);
	if peak > max { viol!("{} used {} bytes of memory for an input of {}", what, peak, input); }
	Ok(())
}

/// Everything one can do with parsed records
fn use_records(c: &mut Case, rrs: &[RR], input: usize) -> R {
	let few = &rrs[..rrs.len().min(60)];
	let mut out = Vec::new();
	for rr in few.iter() {
		out.clear();
		guard("write_rr", || write_rr(rr, 0xffff_ffff, &mut out))?;
		ensure!(out.len() <= 65535 + 300, "a record was written in {} bytes", out.len());
		let j = guard_m("json", || rr.json())?;
		mem_ok("json", j.peak, out.len())?;
		guard("ty and name", || { Record::ty(rr); Record::name(rr).as_str().len() })?;
		guard("Debug", || format!("{:?}", rr).len())?;
		if let RR::DnsKey(k) = rr { guard("key_tag", || k.key_tag())?; }
		if let RR::NSec(n) = rr { guard("contains_type", || (0..=65535u16).filter(|t| n.types.contains_type(*t)).count())?; }
	}
	for a in few.iter().take(12) { for b in few.iter().take(12) {
		guard("comparison", || { let _ = a == b; let _ = a.partial_cmp(b); a.cmp(b) })?;
	} }
	guard("sort", || { let mut v: Vec<&RR> = few.iter().collect(); v.sort(); v.len() })?;
	let v = guard_m("verify_rr_stream", || verify_rr_stream(rrs))?;
	mem_ok("verify_rr_stream", v.peak, input)?;
	c.count(match &v.value { Ok(_) => "verifications_accepted", Err(_) => "verifications_rejected" });
	// resolution on whatever was verified, and on everything as though it had been
	let all = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
	for rr in few.iter().take(8) {
		if let Ok(v) = &v.value { guard_lim("resolve_name", 10_000_000, || v.resolve_name(rr.name()).len())?; }
		guard_lim("resolve_name", 10_000_000, || all.resolve_name(rr.name()).len())?;
		c.count("names_resolved");
	}
	c.add("records_used", few.len() as u64);
	Ok(())
}

/// Writes a sample of the inputs to the file VH_CORPUS names, for the run under Miri
fn keep(kind: char, b: &[u8]) {
	use std::io::Write;
	static FILE: std::sync::OnceLock<Option<std::sync::Mutex<std::fs::File>>> = std::sync::OnceLock::new();
	if let Some(f) = FILE.get_or_init(|| std::env::var_os("VH_CORPUS").map(|p| std::sync::Mutex::new(std::fs::File::create(p).expect("corpus")))) {
		if b.len() < 1500 && fnv(b) % 64 == 0 { writeln!(f.lock().unwrap(), "{} {}", kind, hex(b)).expect("corpus"); }
	}
}

fn stream(c: &mut Case, b: &[u8]) -> R {
	keep('s', b);
	c.eval();
	c.nontrivial(fnv(b));
	c.reset_artifacts();
	c.artifact("stream", hex(&b[..b.len().min(200_000)]));
	let g = guard_m("parse_rr_stream", || parse_rr_stream(b))?;
	mem_ok("parse_rr_stream", g.peak, b.len())?;
	match g.value {
		Err(()) => c.count("streams_refused"),
		Ok(rrs) => { c.count("streams_parsed"); ensure!(rrs.len() <= b.len() / 11, "more records than fit the input"); use_records(c, &rrs, b.len())?; },
	}
	Ok(())
}
fn message(c: &mut Case, b: &[u8]) -> R {
	if b.len() > 65535 { return Ok(()); }
	keep('m', b);
	c.eval();
	c.nontrivial(fnv(b));
	c.reset_artifacts();
	c.artifact("message", hex(b));
	let n = Nm::new("start.example.").lib();
	let buf = qbuf(b);
	let (mut pb, _) = ProofBuilder::new(&n, TXT);
	let g = guard_m("process_response", || pb.process_response(&buf).map(|q| q.len()))?;
	mem_ok("process_response", g.peak, b.len())?;
	c.count(if g.value.is_ok() { "messages_accepted" } else { "messages_refused" });
	// again and again, until it is done
	for _ in 0..3 { let _ = guard("process_response", || pb.process_response(&buf).map(|q| q.len()))?; }
	guard("awaiting_responses", || pb.awaiting_responses())?;
	if let Ok((p, _)) = guard("finish_proof", || pb.finish_proof())? { stream(c, &p)?; }
	Ok(())
}

// ---------------------------------------------------------------- phases

/// Bytes from structure: headers and pieces with hostile lengths
fn noise(r: &mut Rng) -> Vec<u8> {
	let mut b = Vec::new();
	for _ in 0..r.range(0, 12) {
		match r.below(12) {
			0 => b.push(0),
			1 => { let n = r.below(64) as u8; b.push(n); let x = r.bytes(n as usize); b.extend(x); },
			2 => { let n = r.range(1, 63); b.push(n as u8); for _ in 0..n { b.push(*r.pick(b"abcXYZ019-_*.\"\\ \x7f\x80\xc3")); } },
			3 => b.extend([0xc0 | r.below(4) as u8, r.byte()]),
			4 => { let t = *r.pick(&SUPPORTED); b.extend(t.to_be_bytes()); b.extend([0, 1]); b.extend(r.bytes(4)); let l = r.u16b() % 300; b.extend(l.to_be_bytes()); },
			5 => { let t = *r.pick(&SUPPORTED); b.push(0); b.extend(t.to_be_bytes()); b.extend([0, 1, 0, 0, 0, 0]); let l = r.below(40); b.extend((l as u16).to_be_bytes()); let x = r.bytes(l); b.extend(x); },
			6 => b.extend([r.byte(), r.below(34) as u8]),
			7 => { let n = r.below(40); let x = r.bytes(n); b.extend(x); },
			8 => b.extend(r.u16b().to_be_bytes()),
			9 => b.extend([0xff; 7]),
			10 => b.push(r.u8b()),
			_ => { let x = any_rec(r); if x.rd.rdata().len() < 600 { b.extend(x.wire(1)); } },
		}
	}
	b
}
fn f_noise(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	set_anchors(vec![]);
	for _ in 0..10 {
		let b = noise(&mut r);
		stream(c, &b)?;
		let mut m = vec![0, 0, 0x81, 0xa0, 0, 1, 0, r.below(5) as u8, 0, r.below(4) as u8, 0, 0];
		if r.chance(3, 4) { m.extend([0, 0, 1, 0, 1]); }
		m.extend(&b);
		message(c, &m)?;
	}
	Ok(())
}
/// Correct proofs and records, damaged
fn f_streams(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let mut base: Vec<u8> = Vec::new();
	if r.chance(1, 2) {
		let w = World::gen(&mut r, &Cfg::fast());
		set_anchors(w.anchors());
		let zi = r.below(w.zones.len());
		for s in w.chain_sets(zi) { for x in s.recs() { base.extend(x.wire(5)); } }
		let z = &w.zones[zi];
		for (o, ty) in z.sets.keys().take(3) { let at = if o.is_wild() && r.chance(2, 3) { o.parent().child("zz") } else { o.clone() }; for x in w.set(zi, o, *ty).recs_at(&at) { base.extend(x.wire(5)); } }
		for (o, rd) in z.chain.iter().take(4) { for x in w.set(zi, o, rd.ty()).recs() { base.extend(x.wire(5)); } }
	} else {
		set_anchors(vec![]);
		for _ in 0..r.range(1, 6) { let x = any_rec(&mut r); let t = r.u32b(); base.extend(vary(&mut r, &x, t)); }
	}
	stream(c, &base)?;
	for _ in 0..8 {
		let mut b = base.clone();
		for _ in 0..*r.pick(&[1, 1, 2, 4]) {
			if b.is_empty() { break; }
			let i = r.below(b.len());
			match r.below(7) {
				0 => b[i] ^= 1 << r.below(8),
				1 => b[i] = r.u8b(),
				2 => { b.remove(i); },
				3 => { let v = r.u8b(); b.insert(i, v); },
				4 => b.truncate(i),
				5 => { let j = r.below(b.len()); let (i, j) = (i.min(j), i.max(j)); let x = b[i..j].to_vec(); if x.len() < 3000 { let k = r.range(0, b.len()); b.splice(k..k, x); } },
				_ => { let v = r.u16b(); if i + 2 <= b.len() { b[i..i + 2].copy_from_slice(&v.to_be_bytes()); } },
			}
		}
		stream(c, &b)?;
	}
	Ok(())
}
fn f_messages(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	set_anchors(vec![]);
	let n = r.range(1, 6);
	let mut sg = pool(&mut r, n);
	if r.chance(1, 3) { sg.push(any_name(&mut r)); }
	let m = gen_msg(&mut r, &sg);
	let cm = *r.pick(&[Comp::No, Comp::Std, Comp::All]);
	let base = encode(&mut r, &m, cm);
	for k in 0..8 {
		let mut b = base.clone();
		for _ in 0..if k == 0 { 0 } else { *r.pick(&[1, 1, 2, 5]) } { damage(&mut r, &mut b); }
		message(c, &b)?;
	}
	Ok(())
}
/// Names and pointers: long chains, circles, the largest names
fn f_pointers(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	set_anchors(vec![]);
	let mut b = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1];
	let hops = *r.pick(&[1, 2, 100, 253, 254, 255, 256, 257, 300, 4000]);
	// a run of pointers, each to the one before (or after, or itself), inside the data of the first record
	let at = b.len() + 1 + 10;
	let mut data = Vec::new();
	let kind = r.below(4);
	let first: Vec<u8> = match r.below(4) { 0 => vec![0], 1 => vec![1, b'a', 0], 2 => [vec![63u8], vec![b'x'; 63], vec![0]].concat(), _ => vec![3, b'a', b'b', b'c'] };
	data.extend(&first);
	let lbl = r.chance(1, 3);
	let start = at + 1;
	let mut prev = start;
	for i in 0..hops {
		let here = start + data.len();
		if here > 0x3fff { break; }
		let to = match kind { 0 | 1 => prev, 2 => here, _ => here + 2 };
		if lbl && i % 2 == 0 { data.extend([1, b'y']); }
		let pos = if lbl && i % 2 == 0 { here } else { start + data.len() };
		data.extend((0xc000u16 | (to & 0x3fff) as u16).to_be_bytes());
		prev = pos;
	}
	// the first record carries them as the text of a TXT, in strings of at most 255 bytes, where the bytes between are lengths,
	// so for pointers at fixed places a DS record's digest is the better carrier
	let total = data.len() + 4;
	b.push(0); b.extend([0, 43, 0, 1, 0, 0, 0, 9]); b.extend((total as u16).to_be_bytes());
	let shift = b.len() + 4 - start; // 4 bytes of DS before the digest
	let fix = |v: u16| 0xc000 | ((v & 0x3fff) + shift as u16);
	let mut i = 0;
	let mut fixed = data.clone();
	i += first.len();
	while i + 1 < fixed.len() { if fixed[i] & 0xc0 == 0xc0 { let v = fix(u16::from_be_bytes([fixed[i], fixed[i + 1]])); fixed[i..i + 2].copy_from_slice(&v.to_be_bytes()); } i += 2; }
	b.extend([0, 1, 8, 2]); b.extend(&fixed);
	let last = prev + shift;
	let n = r.range(1, 5);
	for _ in 0..n {
		let p = (0xc000u16 | (last & 0x3fff) as u16).to_be_bytes();
		if r.chance(1, 2) { b.extend([1, b'z']); }
		b.extend(p);
		match r.below(4) {
			0 => { b.extend([0, 5, 0, 1, 0, 0, 0, 1]); b.extend([0, 2]); b.extend(p); },
			1 => { b.extend([0, 46, 0, 1, 0, 0, 0, 1]); b.extend([0, 24]); b.extend([0, 1, 15, 2]); b.extend(r.bytes(14)); b.extend(p); b.extend(r.bytes(4)); },
			2 => { b.extend([0, 47, 0, 1, 0, 0, 0, 1]); b.extend([0, 5]); b.extend(p); b.extend([0, 1, 0x40]); },
			_ => { b.extend([0, 1, 0, 1, 0, 0, 0, 1, 0, 4, 1, 2, 3, 4]); },
		}
	}
	b[7] = (1 + n) as u8;
	c.count("pointer_messages");
	message(c, &b)?;
	let mut m = b.clone();
	damage(&mut r, &mut m);
	message(c, &m)
}
/// The largest of everything
fn f_large(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	set_anchors(vec![]);
	match c.idx % 8 {
		0 => { // very many tiny records
			let n = r.range(100, 4000);
			let t: &[u8] = *r.pick(&[&[0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4][..], &[0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 1, 0], &[0, 0, 47, 0, 1, 0, 0, 0, 0, 0, 1, 0], &[0, 0, 46, 0, 1, 0, 0, 0, 0, 0, 20, 0, 1, 15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 9]]);
			let b: Vec<u8> = t.iter().copied().cycle().take(t.len() * n).collect();
			stream(c, &b)?;
		},
		1 => { // a record as large as they get, in every type
			for ty in SUPPORTED {
				let n = r.range(65000, 65535);
				let x = if r.chance(1, 2) { vec![r.byte(); n] } else { r.bytes(n) };
				let mut b = vec![0];
				b.extend(ty.to_be_bytes());
				b.extend([0, 1, 0, 0, 0, 0]);
				b.extend((n as u16).to_be_bytes());
				b.extend(x);
				stream(c, &b)?;
			}
		},
		2 => { // signatures that grow when their compressed signer is written out
			let big = { let l = "l".repeat(63); let mut n = Nm::root(); for _ in 0..3 { n = n.child(&l); } n.child(&"m".repeat(r.range(1, 61))) };
			let mut m = Msg::new(&big, TXT);
			m.edns = false;
			let sl = r.range(64700, 65230);
			let s = Sig { ty: TXT, alg: 15, labels: 4, ttl: 1, exp: 2, inc: 1, tag: 3, signer: big.clone(), sig: r.bytes(sl) };
			m.sections[0].push(item(Rec::new(&big, RD::RRSig(s)), 7));
			let b = encode(&mut r, &m, Comp::All);
			c.count(if b.len() <= 65535 { "growing_signatures" } else { "growing_signatures_too_large" });
			message(c, &b)?;
		},
		3 => { // nearly a whole message of compressed names
			let n = r.range(100, 4000);
			let mut m = Msg::new(&any_name(&mut r), TXT);
			let o = any_name(&mut r);
			for i in 0..n { m.sections[0].push(item(Rec::new(&o, RD::A((i as u32).to_be_bytes())), 1)); }
			let b = encode(&mut r, &m, Comp::Std);
			message(c, &b)?;
		},
		4 => { // one signed set of very many records
			let root = Key::ed25519(r.next() >> 1).ksk();
			set_anchors(vec![match Rec::new(&Nm::root(), root.ds(&Nm::root(), 2)).lib() { RR::DS(d) => d, _ => unreachable!() }]);
			let mut p = forge(&root, &Nm::root(), &Nm::root(), DNSKEY, vec![root.rd()]);
			let n = r.range(50, 1500);
			p.extend(forge(&root, &Nm::root(), &Nm::new("big."), A, (0..n as u32).map(|i| RD::A((i * 7919).to_be_bytes())).collect()));
			let mut b = Vec::new();
			for x in p.iter() { b.extend(x.wire(1)); }
			stream(c, &b)?;
		},
		5 => { // text in every possible chunking
			let n = r.range(0, 65535);
			let mut d = Vec::new();
			while d.len() < n { let l = r.size(255).min(n - d.len() - 1); d.push(l as u8); let x = r.bytes(l); d.extend(x); }
			let mut b = vec![0, 0, 16, 0, 1, 0, 0, 0, 0];
			b.extend((d.len() as u16).to_be_bytes());
			b.extend(d);
			stream(c, &b)?;
		},
		6 => { // all type bitmaps
			let mut d = vec![0];
			for w in 0..=255u8 { let l = r.range(1, 34); if r.chance(1, 12) { continue; } d.push(w); d.push(l as u8); let mut x = r.bytes(l); x[l - 1] |= 1; if r.chance(1, 2) && l > 32 { d.pop(); d.push(32); x.truncate(32); } d.extend(x); }
			for ty in [NSEC, NSEC3] {
				let mut b = vec![0];
				b.extend(ty.to_be_bytes());
				b.extend([0, 1, 0, 0, 0, 0]);
				let mut x = d.clone();
				if ty == NSEC3 { x = [vec![1, 0, 0, 0, 0, 20], vec![7; 20], d[1..].to_vec()].concat(); }
				b.extend((x.len() as u16).to_be_bytes());
				b.extend(x);
				stream(c, &b)?;
			}
		},
		_ => { // keys of all shapes, used for signatures that look right
			let mut p: Vec<Rec> = Vec::new();
			let alg = *r.pick(&[8u8, 10, 13, 14, 15, 1, 5, 7, 16]);
			let n = *r.pick(&[0, 1, 2, 3, 4, 5, 32, 64, 96, 100, 256, 259, 2000]);
			let mut pk = r.bytes(n);
			if n > 2 && r.chance(1, 2) { pk[0] = *r.pick(&[0, 1, 3, 255]); pk[1] = *r.pick(&[0, 1, 255]); pk[2] = r.u8b(); }
			let k = RD::DnsKey { flags: 257, proto: 3, alg, key: pk.clone() };
			let tag = key_tag(257, 3, alg, &pk);
			let mut inp = vec![0]; inp.extend(k.rdata());
			let dg = ring::digest::digest(&ring::digest::SHA256, &inp).as_ref().to_vec();
			set_anchors(vec![match Rec::new(&Nm::root(), RD::DS { tag, alg, dt: 2, digest: dg }).lib() { RR::DS(d) => d, _ => unreachable!() }]);
			p.push(Rec::new(&Nm::root(), k));
			let sl = *r.pick(&[0usize, 1, 63, 64, 65, 96, 128, 256, 512, 1000, 1025]);
			p.push(Rec::new(&Nm::root(), RD::RRSig(Sig { ty: DNSKEY, alg, labels: r.u8b(), ttl: 1, exp: NOW + 5, inc: NOW - 5, tag, signer: Nm::root(), sig: r.bytes(sl) })));
			let mut b = Vec::new();
			for x in p.iter() { b.extend(x.wire(1)); }
			c.count("odd_keys");
			stream(c, &b)?;
		},
	}
	Ok(())
}
/// Keys that are none, in the place of a delegated key, a root key or a zone-signing key of a key set that is itself in order
fn f_keys(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	for _ in 0..3 {
		let alg = *r.pick(&[8u8, 8, 8, 10, 13, 14, 15]);
		let pk: Vec<u8> = match alg {
			8 | 10 => {
				// exponent and modulus of every relation between the lengths stated and there
				let e = *r.pick(&[0usize, 1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 1000, 65535]);
				let there = *r.pick(&[e, e, e, e.saturating_sub(1), e / 2, 0, e + 1]);
				let long = e > 255 || r.chance(1, 3);
				let m = *r.pick(&[0usize, 0, 1, 2, 3, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1024, 1025]);
				let mut k = if long { vec![0, (e >> 8) as u8, e as u8] } else { vec![e as u8] };
				if there < 1100 { k.extend(r.bytes(there)); }
				k.extend(match r.below(4) { 0 => vec![0; m], 1 => vec![0xff; m], _ => r.bytes(m) });
				if r.chance(1, 4) { let n = r.range(0, 5); k.truncate(n); }
				k
			},
			_ => { let full = match alg { 13 => 64, 14 => 96, _ => 32 }; let n = *r.pick(&[0, 1, full / 2, full - 1, full, full, full + 1, 2 * full]); match r.below(4) { 0 => vec![0; n], 1 => vec![0xff; n], _ => r.bytes(n) } },
		};
		let odd = Key { flags: *r.pick(&[256u16, 257]), proto: 3, alg, pubkey: pk, signer: Signer::Dummy(1) };
		let n = match r.below(5) { 0 => 0, 1 => r.range(0, 66), _ => *r.pick(&[32usize, 63, 64, 65, 96, 128, 256, 512, 513]) };
		let sig_of = |r: &mut Rng, zone: &Nm, owner: &Nm, rds: &[RD], ty: u16| {
			let mut s = make_sig(&odd, zone, owner, rds, ty, 300, NOW - 100, NOW + 100);
			s.sig = match r.below(3) { 0 => vec![0; n], _ => r.bytes(n) };
			s
		};
		let root = Nm::root();
		let good = Key::ed25519(r.next() >> 1).ksk();
		let mut p = Vec::new();
		let data = RD::Txt(b"x".to_vec());
		let place = r.below(3);
		match place {
			0 => {
				// the root key itself
				set_anchors(vec![match Rec::new(&root, odd.ds(&root, 2)).lib() { RR::DS(d) => d, _ => unreachable!() }]);
				p.push(Rec::new(&root, odd.rd()));
				let s = sig_of(&mut r, &root, &root, &[odd.rd()], DNSKEY);
				p.push(Rec::new(&root, RD::RRSig(s)));
			},
			1 => {
				// a zone-signing key
				set_anchors(vec![match Rec::new(&root, good.ds(&root, 2)).lib() { RR::DS(d) => d, _ => unreachable!() }]);
				p.extend(forge(&good, &root, &root, DNSKEY, vec![good.rd(), odd.rd()]));
				let o = Nm::new("d.");
				let s = sig_of(&mut r, &root, &o, &[data.clone()], TXT);
				p.push(Rec::new(&o, data));
				p.push(Rec::new(&o, RD::RRSig(s)));
			},
			_ => {
				// the key of a delegated zone
				set_anchors(vec![match Rec::new(&root, good.ds(&root, 2)).lib() { RR::DS(d) => d, _ => unreachable!() }]);
				p.extend(forge(&good, &root, &root, DNSKEY, vec![good.rd()]));
				let z = Nm::new("z.");
				p.extend(forge(&good, &root, &z, DS, vec![odd.ds(&z, 2)]));
				p.push(Rec::new(&z, odd.rd()));
				let s = sig_of(&mut r, &z, &z, &[odd.rd()], DNSKEY);
				p.push(Rec::new(&z, RD::RRSig(s)));
				let o = Nm::new("d.z.");
				let s = sig_of(&mut r, &z, &o, &[data.clone()], TXT);
				p.push(Rec::new(&o, data));
				p.push(Rec::new(&o, RD::RRSig(s)));
			},
		}
		r.shuffle(&mut p);
		let mut b = Vec::new();
		for x in p.iter() { b.extend(x.wire(1)); }
		c.count(["odd_root_keys", "odd_zone_signing_keys", "odd_delegated_keys"][place]);
		stream(c, &b)?;
	}
	Ok(())
}
/// Correctly signed nonsense: everything behind the signature check
fn f_signed(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let root = Key::ed25519(r.next() >> 1).ksk();
	set_anchors(vec![match Rec::new(&Nm::root(), root.ds(&Nm::root(), 2)).lib() { RR::DS(d) => d, _ => unreachable!() }]);
	let base = forge(&root, &Nm::root(), &Nm::root(), DNSKEY, vec![root.rd()]);
	for _ in 0..4 {
		let mut p = base.clone();
		let mut wild = None;
		for _ in 0..r.range(1, 5) {
			let owner = match r.below(6) {
				0 => any_name(&mut r),
				1 => Nm::root(),
				2 => Nm::root().child("*"),
				// what hashed denial names look like, and nearly look like
				3 => { let n = *r.pick(&[0usize, 1, 5, 19, 20, 20, 20, 21, 40]); let h = r.bytes(n); let s = b32(&h); Nm::root().child(if s.is_empty() { "-" } else { &s[..s.len().min(63)] }) },
				4 => Nm::root().child(*r.pick(&["a\\.b", "v", "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv", "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww", "00000000000000000000000000000000", "0000000000000000000000000000000", "a$b"].map(|s| if s.contains('.') { "ab" } else { s }))),
				_ => { let l = *r.pick(&LABELS); Nm::root().child(l).child("w") },
			};
			let ty = *r.pick(&[NSEC3, NSEC3, NSEC3, NSEC, TXT, A, DS, CNAME, DNAME, DNSKEY, RRSIG]);
			let mut rd = small_rd(&mut r, ty);
			if let RD::NSec3 { algo, flags, iter, next, .. } = &mut rd { if r.chance(3, 4) { *algo = 1; *flags = 0; *iter %= 60; } if r.chance(1, 2) { next.resize(20, 1); } }
			let rds = vec![rd];
			let mut s = make_sig(&root, &Nm::root(), &owner, &rds, ty, 300, NOW - 100, NOW + 100);
			let mut at = owner.clone();
			if r.chance(1, 3) {
				// sign as a wildcard of any number of labels
				let l = r.range(0, owner.n()) as u8;
				let w = owner.last(l as usize).child("*");
				s = make_sig(&root, &Nm::root(), &w, &rds, ty, 300, NOW - 100, NOW + 100);
				s.labels = l;
				s.sig = root.sign(&signed_data(&s.head(), &w, ty, 300, &rds));
				at = if l as usize == owner.n() { w.clone() } else { owner.clone() };
			} else if r.chance(1, 6) {
				// more labels than the name has
				s.labels = *r.pick(&[255, 128, 254, s.labels.wrapping_add(1)]);
				s.sig = root.sign(&signed_data(&s.head(), &owner, ty, 300, &rds));
			}
			wild = Some(at.clone());
			for rd in rds { p.push(Rec::new(&at, rd)); }
			p.push(Rec::new(&at, RD::RRSig(s)));
		}
		// something that needs a denial
		if r.chance(2, 3) {
			let w = Nm::root().child("*");
			let rd = RD::Txt(b"w".to_vec());
			let s = make_sig(&root, &Nm::root(), &w, &[rd.clone()], TXT, 300, NOW - 100, NOW + 100);
			let at = match &wild { Some(n) if r.chance(1, 2) && n.text_len() < 240 => n.child("q"), _ => Nm::new("zz.q.") };
			p.push(Rec::new(&at, rd));
			p.push(Rec::new(&at, RD::RRSig(s)));
		}
		r.shuffle(&mut p);
		let mut b = Vec::new();
		for x in p.iter() { b.extend(x.wire(1)); }
		c.count("signed_nonsense");
		stream(c, &b)?;
	}
	Ok(())
}
fn f_text(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	for _ in 0..30 {
		let n = r.size(600);
		let mut s = String::new();
		while s.len() < n {
			match r.below(8) { 0 => s.push('.'), 1 => s.push_str(&any_text(&mut r)), 2 => s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x')), 3 => s.push_str(&"a".repeat(r.range(1, 64))), _ => s.push(r.range(0x20, 0x7e) as u8 as char) }
			if r.chance(1, 8) { break; }
		}
		if r.chance(1, 2) { s.push('.'); }
		c.eval();
		c.nontrivial(fnv(s.as_bytes()));
		c.reset_artifacts();
		c.artifact("text", format!("{:?}", s));
		let a = guard_m("Name::try_from", || Name::try_from(s.as_str()))?;
		mem_ok("Name::try_from", a.peak, s.len())?;
		let b = guard("Name::try_from", || Name::try_from(s.clone()))?;
		ensure!(a.value == b, "a name from a string slice differs from one from a string");
		if let Ok(n) = b {
			c.count("names_accepted");
			guard("labels", || n.labels())?;
			for k in 0..=255u8 { guard("trailing_n_labels", || n.trailing_n_labels(k).map(|x| x.len()))?; }
			guard("Display", || format!("{} {:?}", n, n).len())?;
			let (_, q) = guard("ProofBuilder::new", || ProofBuilder::new(&n, 1))?;
			ensure!(q.len() > 12, "an empty query");
		} else { c.count("names_refused"); }
	}
	Ok(())
}
fn f_buf(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let n = r.u16b();
	let mut q = guard("new_zeroed", || QueryBuf::new_zeroed(n))?;
	c.eval();
	for _ in 0..r.range(1, 30) {
		let k = if r.chance(1, 8) { *r.pick(&[65534usize, 65535, 65536, 65537, 131072]) } else { r.size(3000) };
		let d = r.bytes(k);
		guard("extend_from_slice", || q.extend_from_slice(&d))?;
		c.count("appends");
		if r.chance(1, 3) { let i = r.below(q.len().max(1)); guard("write", || if i < q.len() { q[i] = 1 })?; }
		if r.chance(1, 3) { let o = guard("clone", || q.clone())?; guard("comparison", || q == o)?; if r.chance(1, 4) { guard("into_vec", || o.into_vec().len())?; } }
	}
	c.nontrivial(q.len() as u64 ^ (n as u64) << 32);
	guard("into_vec", || q.into_vec().len())?;
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C09", rule: "Each case hands arbitrary or damaged bytes (noise made of protocol pieces, damaged proofs and messages, pointer chains and circles, records and messages as large as they get, malformed keys \
			that the chain leads to, correctly signed nonsense) to the stream parser or response processing and everything parsed to writing, JSON, comparison, sorting, printing, verification and resolution, or arbitrary text to name parsing, or \
			operations to the query buffer. Monitors: panics (debug assertions and overflow checks on), fatal signals and sanitizer reports of the process, peak memory against input size, CPU time. Distinct inputs are non-trivial.",
		phases: vec![Phase::new("text", 600, 30_000, f_text), Phase::new("buf", 600, 20_000, f_buf), Phase::new("pointers", 1500, 60_000, f_pointers), Phase::new("large", 96, 3000, f_large),
			Phase::new("keys", 3000, 150_000, f_keys), Phase::new("signed", 1500, 80_000, f_signed), Phase::new("streams", 1200, 80_000, f_streams), Phase::new("messages", 2500, 150_000, f_messages), Phase::new("noise", 6000, 400_000, f_noise)],
		required: &["streams_parsed", "streams_refused", "messages_accepted", "messages_refused", "verifications_accepted", "verifications_rejected", "names_accepted", "names_refused", "appends", "records_used",
			"growing_signatures", "odd_keys", "odd_root_keys", "odd_zone_signing_keys", "odd_delegated_keys", "pointer_messages", "signed_nonsense", "names_resolved"],
		assumptions: &["Memory counts as out of proportion above 4096 bytes per byte of input plus 1 MiB: a parsed record takes about 8 KiB whatever its size."],
		known: vec![],
	}]
}
