//! C15, C16: the proof builder against a model, fed with arbitrary resolver messages.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use dnssec_prover::query::{ProofBuilder, QueryBuf};

use crate::c_codec::*;
use crate::dns::*;
use crate::util::*;
use crate::{ensure, viol};

// ---------------------------------------------------------------- messages

#[derive(Clone, Debug)]
pub struct Item { pub rec: Rec, pub ttl: u32, pub class: u16 }
pub fn item(rec: Rec, ttl: u32) -> Item { Item { rec, ttl, class: 1 } }

#[derive(Clone, Debug)]
pub struct Msg {
	pub id: u16,
	pub flags: u16,
	pub questions: Vec<(Nm, u16)>,
	/// answers, authority, additional
	pub sections: [Vec<Item>; 3],
	pub edns: bool,
}
pub const OK_FLAGS: u16 = 0x81a0;
impl Msg {
	pub fn new(q: &Nm, ty: u16) -> Msg { Msg { id: 0, flags: OK_FLAGS, questions: vec![(q.clone(), ty)], sections: Default::default(), edns: true } }
}

/// How names are written: nothing compressed, as RFC 1035/3597 allow, or wherever a name stands
#[derive(Clone, Copy, PartialEq)]
pub enum Comp { No, Std, All }

pub struct Enc { pub buf: Vec<u8>, seen: HashMap<Nm, (usize, usize)>, comp: Comp, caps: bool, root: Option<usize>, relay: bool, deepest: usize }
impl Enc {
	fn name(&mut self, rng: &mut Rng, n: &Nm, may: bool) {
		let mut k = 0;
		let mut at: Vec<(Nm, usize)> = Vec::new();
		let done = |e: &mut Enc, at: Vec<(Nm, usize)>, hops: usize| {
			for (s, p) in at { if p < 0x3fff { e.seen.entry(s).or_insert((p, hops)); } }
			e.deepest = e.deepest.max(hops);
		};
		while k < n.n() {
			let suffix = Nm(n.0[k..].to_vec());
			if may && !(k == 0 && rng.chance(1, 10)) {
				if let Some((o, d)) = self.seen.get(&suffix).cloned() {
					let here = self.buf.len();
					self.buf.extend((0xc000u16 | o as u16).to_be_bytes());
					// pointers to pointers, which are as good as pointers to what those point to
					if self.relay && d < 120 && here < 0x3fff { self.seen.insert(suffix, (here, d + 1)); }
					done(self, at, d + 1);
					return;
				}
			}
			at.push((suffix, self.buf.len()));
			let mut l = n.0[k].clone();
			if self.caps { for b in l.iter_mut() { if b.is_ascii_lowercase() && rng.chance(1, 2) { *b = b.to_ascii_uppercase(); } } }
			self.buf.push(l.len() as u8);
			self.buf.extend(l);
			k += 1;
		}
		done(self, at, 0);
		// the root may be pointed to like any other name, by itself and as the end of another
		if let Some(o) = self.root { if may && rng.chance(1, 6) { self.buf.extend((0xc000u16 | o as u16).to_be_bytes()); return; } }
		if self.buf.len() < 0x3fff && (self.root.is_none() || rng.chance(1, 8)) { self.root = Some(self.buf.len()); }
		self.buf.push(0);
	}
	fn item(&mut self, rng: &mut Rng, i: &Item) {
		let (std, all) = (self.comp != Comp::No, self.comp == Comp::All);
		self.name(rng, &i.rec.name, std);
		self.buf.extend(i.rec.ty().to_be_bytes());
		self.buf.extend(i.class.to_be_bytes());
		self.buf.extend(i.ttl.to_be_bytes());
		let lp = self.buf.len();
		self.buf.extend([0, 0]);
		match &i.rec.rd {
			RD::NS(n) | RD::CName(n) => self.name(rng, n, std),
			RD::DName(n) => self.name(rng, n, all),
			RD::RRSig(s) => { let rd = i.rec.rd.rdata(); self.buf.extend(&rd[..18]); self.name(rng, &s.signer, all); self.buf.extend(&s.sig); },
			RD::NSec { next, types } => { self.name(rng, next, all); self.buf.extend(bitmap(types)); },
			_ => { let rd = i.rec.rd.rdata(); self.buf.extend(rd); },
		}
		let l = (self.buf.len() - lp - 2) as u16;
		self.buf[lp..lp + 2].copy_from_slice(&l.to_be_bytes());
	}
}
pub fn encode(rng: &mut Rng, m: &Msg, comp: Comp) -> Vec<u8> {
	let caps = rng.chance(1, 4);
	let relay = rng.chance(1, 6);
	let mut e = Enc { buf: Vec::new(), seen: HashMap::new(), comp, caps, root: None, relay, deepest: 0 };
	e.buf.extend(m.id.to_be_bytes());
	e.buf.extend(m.flags.to_be_bytes());
	e.buf.extend((m.questions.len() as u16).to_be_bytes());
	for (i, s) in m.sections.iter().enumerate() { e.buf.extend((s.len() as u16 + (i == 2 && m.edns) as u16).to_be_bytes()); }
	for (q, ty) in m.questions.iter() { e.name(rng, q, comp != Comp::No); e.buf.extend(ty.to_be_bytes()); e.buf.extend([0, 1]); }
	for s in m.sections.iter() { for i in s.iter() { e.item(rng, i); } }
	if m.edns { e.buf.extend([0, 0, 41, 0x10, 0, 0, 0, 0x80, 0, 0, 0]); }
	e.buf
}
pub fn qbuf(b: &[u8]) -> QueryBuf { let mut q = QueryBuf::new_zeroed(b.len() as u16); q.copy_from_slice(b); q }

#[derive(Debug)]
pub enum Want { Reject(&'static str), Accept { kept: Vec<(Rec, u32)>, sure: bool }, Unknown }

/// What the specification says about a message
pub fn judge_message(b: &[u8], id: u16) -> Want {
	if b.len() < 12 { return Want::Reject("header"); }
	let w = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
	if w(0) != id { return Want::Reject("transaction id"); }
	let f = w(2);
	if f & 0x8000 == 0 { return Want::Reject("not a response"); }
	if f & 0x7800 != 0 { return Want::Reject("not a standard query"); }
	if f & 0x0200 != 0 { return Want::Reject("truncated message"); }
	if f & 0x0020 == 0 { return Want::Reject("not authenticated"); }
	if f & 0x000f != 0 { return Want::Reject("response code"); }
	if w(4) != 1 { return Want::Reject("question count"); }
	if w(6) == 0 { return Want::Reject("no answer"); }
	let mut sure = true;
	let mut pos = match read_name(b, 12, b.len(), b) { Err(_) => return Want::Reject("question"), Ok((_, p, e)) => { sure &= !e; p } };
	pos += 4;
	if pos > b.len() { return Want::Reject("question"); }
	let mut kept = Vec::new();
	let mut unknown = false;
	for sec in 0..2 {
		for _ in 0..w(6 + 2 * sec) {
			let (r, next) = read_rr(b, pos, b);
			let (rec, ttl) = match r {
				Read::Bad(_) => return Want::Reject(if sec == 0 { "answer" } else { "authority" }),
				Read::Ok(x) => x,
				Read::Either(x) => { sure = false; match x { None => { unknown = true; pos = next; continue }, Some(x) => x } },
			};
			pos = next;
			if rec.wire(0).len() > 65535 + 11 + rec.name.wire().len() - 1 || rec.rd.rdata().len() > 65535 { sure = false; unknown = true; }
			let keep = sec == 0 || match &rec.rd { RD::RRSig(s) => s.ty == NSEC || s.ty == NSEC3, RD::NSec { .. } | RD::NSec3 { .. } => true, _ => false };
			if keep { kept.push((rec, ttl)); }
		}
	}
	if unknown { return Want::Unknown; }
	Want::Accept { kept, sure }
}

/// Reads a query as a resolver would
pub fn read_query(b: &[u8]) -> Result<(u16, Nm, u16), String> {
	if b.len() < 12 { return Err("too short".into()); }
	let w = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
	let f = w(2);
	if f & 0x8000 != 0 { return Err("marked as a response".into()); }
	if f & 0x7800 != 0 { return Err("not a standard query".into()); }
	if f & 0x0100 == 0 { return Err("recursion not desired".into()); }
	if f & 0x06cf != 0 { return Err("has response or reserved bits set".into()); }
	if (w(4), w(6), w(8)) != (1, 0, 0) { return Err(format!("holds {} questions, {} answers, {} authorities", w(4), w(6), w(8))); }
	let (name, mut p, _) = read_name(b, 12, b.len(), b).map_err(|e| format!("bad name: {}", e))?;
	if p + 4 > b.len() { return Err("truncated question".into()); }
	let ty = w(p);
	if w(p + 2) != 1 { return Err("not Internet class".into()); }
	p += 4;
	let mut dnssec = false;
	for _ in 0..w(10) {
		let (n, q, _) = read_name(b, p, b.len(), b).map_err(|e| format!("bad name: {}", e))?;
		if q + 10 > b.len() { return Err("truncated additional record".into()); }
		let (t, ttl, l) = (w(q), u32::from_be_bytes([b[q + 4], b[q + 5], b[q + 6], b[q + 7]]), w(q + 8) as usize);
		if q + 10 + l > b.len() { return Err("truncated additional record".into()); }
		if t == 41 {
			if dnssec || n.n() != 0 { return Err("bad OPT record".into()); }
			if ttl & 0x00ff_0000 != 0 { return Err("EDNS version".into()); }
			if ttl & 0xff00_7fff != 0 { return Err("has an EDNS response code or reserved bits set".into()); }
			dnssec = ttl & 0x8000 != 0;
			if !dnssec { return Err("does not ask for DNSSEC data".into()); }
		}
		p = q + 10 + l;
	}
	if p != b.len() { return Err("left-over bytes".into()); }
	if !dnssec { return Err("does not ask for DNSSEC data".into()); }
	Ok((w(0), name, ty))
}

// ---------------------------------------------------------------- the model

pub const MAX_QUERIES: usize = 10;
pub struct Model { pub id: u16, pub pending: usize, pub made: usize, pub emitted: usize, pub asked: BTreeSet<Nm>, pub proof: Vec<u8>, pub min_ttl: u32, pub log: Vec<String>, lost: bool }
impl Model { pub fn lost(&self) -> bool { self.lost } }
pub struct Pair { pub b: ProofBuilder, pub m: Model }

impl Pair {
	pub fn start(c: &mut Case, name: &Nm, ty: u16) -> Result<(Pair, Vec<u8>), Viol> {
		let n = name.lib();
		let (b, q) = guard("ProofBuilder::new", || ProofBuilder::new(&n, ty))?;
		let q = q.into_vec();
		let (id, qn, qt) = read_query(&q).map_err(|e| Viol(format!("the first query {}: {}", e, hex(&q))))?;
		ensure!(qn == *name && qt == ty, "the first query asks for {} type {} instead of {} type {}", qn, qt, name, ty);
		c.count("queries_judged");
		let m = Model { id, pending: 1, made: 1, emitted: 1, asked: BTreeSet::new(), proof: Vec::new(), min_ttl: u32::MAX, log: Vec::new(), lost: false };
		let p = Pair { b, m };
		p.check_awaiting()?;
		Ok((p, q))
	}
	pub fn over(&self) -> bool { self.m.made > MAX_QUERIES }
	fn check_awaiting(&self) -> R {
		let a = guard("awaiting_responses", || self.b.awaiting_responses())?;
		let want = self.m.pending > 0 && !self.over();
		ensure!(a == want, "awaiting_responses is {} with {} queries unanswered and {} needed so far", a, self.m.pending, self.m.made);
		Ok(())
	}
	/// Hands a message to both; gives the queries emitted (None if it was rejected)
	pub fn feed(&mut self, c: &mut Case, msg: &[u8]) -> Result<Option<Vec<(Nm, u16, Vec<u8>)>>, Viol> {
		c.eval();
		let want = judge_message(msg, self.m.id);
		let buf = qbuf(msg);
		let b = &mut self.b;
		let got = guard("process_response", || b.process_response(&buf))?;
		if self.m.log.len() < 60 { self.m.log.push(format!("{} {} {}", if got.is_ok() { "accepted" } else { "rejected" }, match &want { Want::Reject(w) => w, Want::Accept { .. } => "complete", _ => "?" }, hex(&msg[..msg.len().min(4000)]))); }
		c.reset_artifacts();
		c.artifact("responses", self.m.log.join("\n"));
		if self.m.pending == 0 {
			ensure!(got.is_err(), "a response was accepted although no query was outstanding");
			c.count("responses_without_query_refused");
			self.check_awaiting()?;
			return Ok(None);
		}
		let got = match got {
			Err(()) => {
				match want { Want::Accept { sure: true, .. } => viol!("a complete response was rejected: {}", hex(msg)), Want::Reject(w) => c.count(&format!("rejected: {}", w)), _ => c.count("unusual") }
				c.count("responses_rejected");
				self.check_awaiting()?;
				return Ok(None);
			},
			Ok(q) => q,
		};
		let kept = match want {
			Want::Reject(w) => viol!("a response was accepted which is to be rejected ({}): {}", w, hex(msg)),
			Want::Unknown => { self.m.lost = true; c.count("unusual"); return Ok(Some(Vec::new())); },
			Want::Accept { kept, .. } => kept,
		};
		c.count("responses_accepted");
		self.m.pending -= 1;
		let mut need = BTreeSet::new();
		for (rec, ttl) in kept.iter() {
			self.m.proof.extend(rec.wire(*ttl));
			self.m.min_ttl = self.m.min_ttl.min(*ttl);
			if let RD::RRSig(s) = &rec.rd {
				if self.m.asked.insert(s.signer.clone()) { need.insert((s.signer.clone(), DNSKEY)); if s.signer.n() > 0 { need.insert((s.signer.clone(), DS)); } }
			}
		}
		c.add("records_taken_over", kept.len() as u64);
		self.m.pending += need.len();
		self.m.made += need.len();
		let mut out = Vec::new();
		let mut asked = BTreeSet::new();
		for q in got {
			let q = q.into_vec();
			let (id, n, t) = read_query(&q).map_err(|e| Viol(format!("a query {}: {}", e, hex(&q))))?;
			ensure!(id == self.m.id, "queries have different transaction ids");
			ensure!(need.contains(&(n.clone(), t)), "asked for {} type {}, which nothing calls for", n, t);
			ensure!(asked.insert((n.clone(), t)), "asked for {} type {} twice", n, t);
			c.count("queries_judged");
			out.push((n, t, q));
		}
		self.m.emitted += out.len();
		ensure!(self.m.emitted <= MAX_QUERIES, "{} queries were emitted", self.m.emitted);
		if !self.over() { ensure!(asked == need, "asked for {:?} instead of {:?}", asked, need); } else { c.count("limit_exceeded"); }
		self.check_awaiting()?;
		Ok(Some(out))
	}
	pub fn finish(self, c: &mut Case) -> Result<Option<(Vec<u8>, u32)>, Viol> {
		let over = self.over();
		if self.m.lost { return Ok(None); }
		let Pair { b, m } = self;
		let r = guard("finish_proof", || b.finish_proof())?;
		let want = m.pending == 0 && !over;
		match r {
			Err(()) => { ensure!(!want, "no proof though every query was answered"); c.count("builds_without_proof"); Ok(None) },
			Ok((p, ttl)) => {
				ensure!(want, "a proof was released with {} queries unanswered and {} needed", m.pending, m.made);
				ensure!(p == m.proof, "the proof is\n{}\nnot\n{}", hex(&p), hex(&m.proof));
				ensure!(ttl == m.min_ttl, "the lifetime is {} instead of {}", ttl, m.min_ttl);
				c.count("proofs_judged");
				Ok(Some((p, ttl)))
			},
		}
	}
	/// Answers whatever is outstanding with plain records
	pub fn drain(&mut self, c: &mut Case) -> R {
		let mut i = 0u32;
		if self.m.lost { return Ok(()); }
		while self.m.pending > 0 && !self.over() {
			let mut m = Msg::new(&Nm::root(), A);
			m.id = self.m.id;
			i += 1;
			m.sections[0].push(item(Rec::new(&Nm::root(), RD::A(i.to_be_bytes())), u32::MAX));
			let mut r = Rng::new(0, "drain", 0);
			let b = encode(&mut r, &m, Comp::No);
			ensure!(self.feed(c, &b)?.is_some() || self.m.lost, "a plain response was rejected");
			if self.m.lost { break; }
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- generators

pub fn small_rd(r: &mut Rng, ty: u16) -> RD { loop { let x = any_rd(r, ty); if x.rdata().len() < 400 { return x; } } }
fn short_name(r: &mut Rng) -> Nm { let mut n = Nm::root(); for _ in 0..r.range(0, 4) { n = n.child(*r.pick(&["a", "b", "com", "example", "*", "_tcp", "x-y", "mail"])); } n }
pub fn pool(r: &mut Rng, n: usize) -> Vec<Nm> {
	let mut v = Vec::new();
	while v.len() < n { let x = if r.chance(1, 6) { any_name(r) } else { short_name(r) }; if !v.contains(&x) { v.push(x); } }
	v
}
fn ttl(r: &mut Rng) -> u32 { if r.chance(1, 2) { r.range(1, 100_000) as u32 } else { r.u32b() } }
fn gen_item(r: &mut Rng, signers: &[Nm], ty: u16) -> Item {
	let n = if r.chance(1, 10) { any_name(r) } else { short_name(r) };
	let mut rd = small_rd(r, ty);
	if let RD::RRSig(s) = &mut rd {
		if signers.is_empty() { rd = RD::A([9, 9, 9, 9]); } else { s.signer = r.pick(signers).clone(); if r.chance(2, 3) { s.ty = *r.pick(&[A, TXT, DS, DNSKEY, NSEC, NSEC3, NSEC, NS]); } }
	}
	item(Rec::new(&n, rd), ttl(r))
}
/// A response that is to be accepted
pub fn gen_msg(r: &mut Rng, signers: &[Nm]) -> Msg {
	let mut m = Msg::new(&short_name(r), r.u16b());
	m.flags = OK_FLAGS;
	for f in [0x0400u16, 0x0100, 0x0080, 0x0040, 0x0010] { if r.chance(1, 8) { m.flags ^= f; } }
	let n = if r.chance(1, 60) { r.range(50, 400) } else { r.range(1, 5) };
	for _ in 0..n { let t = if r.chance(1, 2) { *r.pick(&SUPPORTED) } else { RRSIG }; let i = gen_item(r, signers, t); m.sections[0].push(i); }
	for _ in 0..r.below(5) { let t = *r.pick(&[NSEC, NSEC3, RRSIG, RRSIG, RRSIG, NS, DS, TXT, A, CNAME]); let i = gen_item(r, signers, t); m.sections[1].push(i); }
	for _ in 0..r.below(3) { let t = *r.pick(&SUPPORTED); let mut i = gen_item(r, &[Nm::new("additional-signer.")], t); if r.chance(1, 3) { i.class = r.u16b(); } m.sections[2].push(i); }
	if r.chance(1, 15) { spread(r, &mut m); }
	if r.chance(1, 15) { nest(r, &mut m); }
	m.edns = r.chance(3, 4);
	m
}
/// Adds records whose names grow, each ending in the one before
fn nest(r: &mut Rng, m: &mut Msg) {
	let mut n = short_name(r);
	let one = r.chance(1, 2);
	for _ in 0..*r.pick(&[4, 8, 15, 40, 110]) {
		let l: &str = if one { *r.pick(&["a", "b", "_"]) } else { *r.pick(&["ab", "x-y", "mail", "_tcp"]) };
		if n.text_len() + l.len() > 250 { break; }
		n = n.child(l);
		let rd = match r.below(4) { 0 => RD::NS(n.clone()), 1 => RD::CName(n.clone()), 2 => RD::A([1, 2, 3, 4]), _ => RD::Txt(vec![b'n'; 3]) };
		m.sections[0].push(item(Rec::new(&n, rd), 1 << 20));
	}
}
/// Puts large records between the others, so that names end up (and are pointed to) all over the reach of pointers
fn spread(r: &mut Rng, m: &mut Msg) {
	let mut room = r.range(200, 0x4100);
	while room > 0 {
		let n = r.range(1, room.min(5000));
		room -= n;
		let x = RD::Txt((0..n).map(|_| r.byte()).collect());
		let at = r.range(0, m.sections[0].len());
		m.sections[0].insert(at, item(Rec::new(&short_name(r), x), 1 << 20));
	}
}
/// The start of the records of a message, as the reference reads it
fn record_starts(b: &[u8]) -> Vec<usize> {
	let mut v = Vec::new();
	if b.len() < 12 { return v; }
	let Ok((_, p, _)) = read_name(b, 12, b.len(), b) else { return v };
	let mut p = p + 4;
	while p < b.len() && v.len() < 500 { v.push(p); let (r, n) = read_rr(b, p, b); if n <= p || matches!(r, Read::Bad("truncated name" | "truncated header" | "truncated data")) { break; } p = n; }
	v
}
/// Spoils a message, or leaves it
pub fn damage(r: &mut Rng, b: &mut Vec<u8>) -> &'static str {
	if b.len() < 13 { return "none"; }
	let starts = record_starts(b);
	let s = if starts.is_empty() { 12 } else { *r.pick(&starts) };
	let h = read_name(b, s, b.len(), b).map(|x| x.1).unwrap_or(12);
	let put16 = |b: &mut Vec<u8>, i: usize, v: u16| if i + 2 <= b.len() { b[i..i + 2].copy_from_slice(&v.to_be_bytes()) };
	let get16 = |b: &Vec<u8>, i: usize| if i + 2 <= b.len() { u16::from_be_bytes([b[i], b[i + 1]]) } else { 0 };
	match r.below(18) {
		0 => { let v = r.u16b(); put16(b, 0, v); "id" },
		1 | 2 => { let i = *r.pick(&[15, 14, 13, 12, 11, 9, 5, 3, 2, 1, 0]); let f = get16(b, 2) ^ (1 << i); put16(b, 2, f); "flags" },
		3 => { let v = *r.pick(&[0, 2, 3, 256, 257, 0xffff]); put16(b, 4, v); "question count" },
		4 => { let v = if r.chance(1, 2) { 0 } else { get16(b, 6).wrapping_add(*r.pick(&[1u16, 0xffff, 256, 2])) }; put16(b, 6, v); "answer count" },
		5 => { let v = get16(b, 8).wrapping_add(*r.pick(&[1u16, 0xffff, 256, 2])); put16(b, 8, v); "authority count" },
		6 => { let v = r.u16b(); put16(b, 10, v); "additional count" },
		7 => { let n = r.range(0, b.len()); b.truncate(n); "cut" },
		8 => { let t = r.u16b(); put16(b, h, t); "type" },
		9 => { let t = *r.pick(&[5, 6, 41, 50, 47, 46, 43, 48, 257, 0, 255]); put16(b, h, t); "type" },
		10 => { let v = *r.pick(&[0, 2, 3, 254, 255, 256, 0x8001]); put16(b, h + 2, v); "class" },
		11 => { let d = get16(b, h + 8).wrapping_add(*r.pick(&[1u16, 0xffff, 2, 0xfffe])); put16(b, h + 8, d); "data length" },
		12 => { let i = r.below(b.len()); b[i] ^= 1 << r.below(8); "bit" },
		13 => { let i = r.below(b.len()); b[i] = r.u8b(); "byte" },
		14 => { let n = r.range(1, 20); let x = r.bytes(n); b.extend(x); "trailing bytes" },
		15 => { let i = r.below(b.len()); b[i] = 0xc0 | r.below(2) as u8; if i + 1 < b.len() { b[i + 1] = r.byte(); } "pointer" },
		16 => { let i = r.range(12, b.len()); let v = r.u8b(); b.insert(i, v); "inserted byte" },
		_ => { let i = r.range(12, b.len() - 1); b.remove(i); "removed byte" },
	}
}
fn comp(r: &mut Rng) -> Comp { *r.pick(&[Comp::No, Comp::Std, Comp::Std, Comp::Std, Comp::All]) }

// ---------------------------------------------------------------- C16

/// A message on its own: accepted or not, and what is taken over
pub fn one(c: &mut Case, b: &[u8]) -> Result<bool, Viol> {
	let (mut p, _) = Pair::start(c, &Nm::new("start.example."), TXT)?;
	c.nontrivial(fnv(b));
	let r = p.feed(c, b)?.is_some();
	p.drain(c)?;
	p.finish(c)?;
	Ok(r)
}
fn base_msg(r: &mut Rng) -> Msg {
	let mut m = Msg::new(&Nm::new("a.example."), TXT);
	m.sections[0].push(item(Rec::new(&Nm::new("a.example."), RD::Txt(b"text".to_vec())), 300));
	let mut s = gen_item(r, &[Nm::new("example.")], RRSIG);
	s.ttl = 200;
	m.sections[0].push(s);
	m
}
fn c16_flags(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let mut m = base_msg(&mut r);
	for low in 0..=255u16 {
		m.flags = (c.idx as u16) << 8 | low;
		let b = encode(&mut r, &m, Comp::Std);
		one(c, &b)?;
		c.count("flag_words_tried");
	}
	Ok(())
}
fn c16_ids(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let mut m = base_msg(&mut r);
	for low in 0..=255u16 {
		m.id = (c.idx as u16) << 8 | low;
		let b = encode(&mut r, &m, Comp::Std);
		one(c, &b)?;
		c.count("transaction_ids_tried");
	}
	Ok(())
}
/// All small section counts against sections of all small sizes
fn c16_counts(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let an = (c.idx % 4) as usize;
	let ns = (c.idx / 4 % 4) as usize;
	let nq = (c.idx / 16 % 3) as usize;
	let mut m = base_msg(&mut r);
	m.edns = false;
	m.questions = (0..nq).map(|i| (Nm::new(&format!("q{}.", i)), TXT)).collect();
	let sg = [Nm::new("example.")];
	m.sections[0] = (0..an).map(|_| { let t = *r.pick(&[A, TXT, RRSIG]); gen_item(&mut r, &sg, t) }).collect();
	m.sections[1] = (0..ns).map(|_| { let t = *r.pick(&[NSEC, NSEC3, RRSIG, NS]); gen_item(&mut r, &sg, t) }).collect();
	let base = encode(&mut r, &m, Comp::No);
	for q in 0..4u16 { for a in 0..5u16 { for n in 0..5u16 { for x in [0u16, 1, 9] {
		let mut b = base.clone();
		for (i, v) in [q, a, n, x].iter().enumerate() { b[4 + 2 * i..6 + 2 * i].copy_from_slice(&v.to_be_bytes()); }
		one(c, &b)?;
		c.count("section_counts_tried");
	} } } }
	Ok(())
}
fn c16_random(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	for k in 0..6 {
		let mut sg = pool(&mut r, 3);
		if r.chance(1, 3) { sg.push(Nm::root()); }
		sg.truncate(4);
		let m = gen_msg(&mut r, &sg);
		let cm = comp(&mut r);
		let mut b = encode(&mut r, &m, cm);
		if b.len() > 65535 { continue; }
		if k > 1 { for _ in 0..*r.pick(&[1, 1, 1, 2]) { let d = damage(&mut r, &mut b); c.count(&format!("damage: {}", d)); } }
		if b.len() > 65535 { continue; }
		let ok = one(c, &b)?;
		if k > 1 && ok { c.count("damaged_but_still_complete"); }
		if k == 0 { c.sample(|| format!("{:?}", m)); }
	}
	Ok(())
}
/// Every way to cut a message short, and every byte of it changed
fn c16_cut(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let sg = pool(&mut r, 2);
	let m = gen_msg(&mut r, &sg);
	let cm = comp(&mut r);
	let b = encode(&mut r, &m, cm);
	if b.len() > 1500 { return Ok(()); }
	for n in 0..b.len() { one(c, &b[..n])?; c.count("cut_messages"); }
	for i in 0..b.len().min(400) { let mut x = b.clone(); x[i] = x[i].wrapping_add(*r.pick(&[1, 255, 0x80, 0xc0])); one(c, &x)?; c.count("messages_with_a_byte_changed"); }
	Ok(())
}

// ---------------------------------------------------------------- C15

fn c15_history(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let name = any_name(&mut r);
	let ty = if r.chance(2, 3) { *r.pick(&[TXT, A, AAAA, TLSA, DNSKEY, DS, 65535, 0]) } else { r.u16b() };
	let (mut p, _) = Pair::start(c, &name, ty)?;
	let mut n_pool = r.range(1, 7);
	if r.chance(1, 30) { n_pool = 40; }
	let mut sg = pool(&mut r, n_pool);
	if r.chance(1, 2) && !sg.contains(&Nm::root()) { sg.push(Nm::root()); }
	if r.chance(1, 6) { sg.push(name.clone()); }
	let steps = r.range(0, 24);
	let bad = *r.pick(&[0, 0, 2, 5, 20]);
	let sparse = r.chance(1, 2);
	let large = r.chance(1, 30);
	let mut h = fnv(name.text().as_bytes());
	let mut fed = 0;
	while fed < steps {
		fed += 1;
		let k = if sparse { r.range(0, 1.min(sg.len())) } else { r.range(0, sg.len()) };
		let mut some = sg.clone();
		r.shuffle(&mut some);
		some.truncate(k);
		let mut m = gen_msg(&mut r, &some);
		m.id = p.m.id;
		if large { let n = r.range(5_000, 60_000); m.sections[0].push(item(Rec::new(&name, RD::Txt(vec![r.byte(); n])), 1 << 20)); }
		let cm = comp(&mut r);
		let mut b = encode(&mut r, &m, cm);
		if r.chance(bad, 20) {
			// what counts for this property is that a rejected response leaves nothing behind: spoil late parts, too
			let d = damage(&mut r, &mut b);
			c.count(&format!("damage: {}", d));
		}
		if b.len() > 65535 { continue; }
		h = h.rotate_left(7) ^ fnv(&b);
		p.feed(c, &b)?;
		if p.m.lost { return Ok(()); }
		if p.m.pending == 0 && r.chance(1, 2) { break; }
	}
	if p.over() {
		// however many more responses arrive
		for _ in 0..r.below(6) { let m = gen_msg(&mut r, &sg); let b = encode(&mut r, &m, Comp::Std); if b.len() <= 65535 { p.feed(c, &b)?; } }
		if p.m.lost { return Ok(()); }
		c.count("histories_over_the_limit");
	} else if r.chance(3, 4) { p.drain(c)?; c.count("histories_drained"); }
	c.nontrivial(h);
	if p.m.proof.len() > 65535 { c.count("proofs_over_65535_bytes"); }
	if c.idx < 3 { let l = p.m.log.len(); c.sample(|| format!("{} type {}: {} responses, then {} asked, {} pending", name, ty, l, 0, 0)); }
	p.finish(c)?;
	Ok(())
}
/// Around the limit of queries, by every split of the zones into responses
fn c15_limit(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let zones = r.range(2, 7);
	let mut sg: Vec<Nm> = (0..zones).map(|i| Nm::new(&format!("z{}.", i))).collect();
	if r.chance(1, 2) { sg.push(Nm::root()); }
	r.shuffle(&mut sg);
	let total: usize = 1 + sg.iter().map(|s| if s.n() == 0 { 1 } else { 2 }).sum::<usize>();
	let (mut p, _) = Pair::start(c, &Nm::new("limit.example."), TXT)?;
	let mut i = 0;
	while i < sg.len() && p.m.pending > 0 {
		let k = r.range(0, (sg.len() - i).min(3));
		let mut m = Msg::new(&Nm::new("limit.example."), TXT);
		m.id = p.m.id;
		m.sections[0].push(item(Rec::new(&Nm::new("x."), RD::A(r.bytes(4).try_into().unwrap())), ttl(&mut r)));
		for s in &sg[i..i + k] {
			let auth = r.chance(1, 3);
			for _ in 0..r.range(1, 3) {
				let mut it = gen_item(&mut r, &[s.clone()], RRSIG);
				if let RD::RRSig(x) = &mut it.rec.rd { x.ty = if auth { *r.pick(&[NSEC, NSEC3]) } else { TXT }; }
				m.sections[auth as usize].push(it);
			}
		}
		// naming zones again asks for nothing
		if i > 0 && r.chance(1, 2) { let s = r.pick(&sg[..i]).clone(); let it = gen_item(&mut r, &[s], RRSIG); m.sections[0].push(it); }
		// signatures over other things in the authority section name no zone
		if r.chance(1, 2) { let mut it = gen_item(&mut r, &[Nm::new("unrelated.")], RRSIG); if let RD::RRSig(x) = &mut it.rec.rd { x.ty = NS; } m.sections[1].push(it); }
		let cm = *r.pick(&[Comp::No, Comp::Std]);
		let b = encode(&mut r, &m, cm);
		c.nontrivial(fnv(&b));
		if p.feed(c, &b)?.is_none() { continue; }
		if k == 0 && p.m.pending == 0 { break; }
		i += k;
	}
	if i == sg.len() { c.count(&format!("needed {:02} queries", total)); }
	p.drain(c)?;
	for _ in 0..r.below(3) { let m = gen_msg(&mut r, &sg); let b = encode(&mut r, &m, Comp::Std); if b.len() <= 65535 { p.feed(c, &b)?; if p.m.lost { return Ok(()); } } }
	p.finish(c)?;
	Ok(())
}
/// A response that goes bad late leaves the proof as it was, at every stage
fn c15_rejected(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let (mut p, _) = Pair::start(c, &Nm::new("rejected.example."), A)?;
	let mut sg = pool(&mut r, 3);
	sg.push(Nm::new("fresh."));
	for _ in 0..r.range(1, 8) {
		let mut m = gen_msg(&mut r, &sg);
		m.id = p.m.id;
		// smaller TTLs in what is rejected
		for s in m.sections.iter_mut() { for i in s.iter_mut() { i.ttl = r.below(3) as u32; } }
		let last = m.sections[1].len() > 0 && r.chance(1, 2);
		let sec = last as usize;
		let mut it = m.sections[sec].last().unwrap().clone();
		match r.below(3) { 0 => it.class = 3, 1 => it.rec.rd = RD::A([0; 4]), _ => {} }
		m.sections[sec].push(it);
		let mut b = encode(&mut r, &m, Comp::Std);
		if r.chance(1, 2) { let an = u16::from_be_bytes([b[6 + 2 * sec], b[7 + 2 * sec]]); b[6 + 2 * sec..8 + 2 * sec].copy_from_slice(&(an + 300).to_be_bytes()); }
		if b.len() > 65535 { continue; }
		c.nontrivial(fnv(&b));
		p.feed(c, &b)?;
		if p.m.lost { return Ok(()); }
		if p.m.pending == 0 { break; }
		if r.chance(1, 3) {
			let k = r.range(0, 2);
			let mut m = gen_msg(&mut r, &sg[..k]);
			m.id = p.m.id;
			let b = encode(&mut r, &m, Comp::Std);
			if b.len() <= 65535 { p.feed(c, &b)?; if p.m.lost { return Ok(()); } }
		}
	}
	p.drain(c)?;
	p.finish(c)?;
	Ok(())
}

/// C10: records in messages, whose names may be compressed
pub fn c10_wire(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let mut sg = pool(&mut r, 4);
	sg.push(Nm::root());
	let mut m = Msg::new(&short_name(&mut r), TXT);
	for _ in 0..r.range(2, 30) { let t = *r.pick(&[NS, CNAME, DNAME, RRSIG, NSEC, RRSIG, A, TXT, NSEC3, DS]); let i = gen_item(&mut r, &sg, t); m.sections[0].push(i); }
	if r.chance(1, 2) { spread(&mut r, &mut m); c.count("messages_with_far_names"); }
	if r.chance(1, 4) { nest(&mut r, &mut m); c.count("messages_with_deeply_nested_names"); }
	let cm = *r.pick(&[Comp::Std, Comp::Std, Comp::All]);
	let b = encode(&mut r, &m, cm);
	if b.len() > 65535 { return Ok(()); }
	if one(c, &b)? { c.count("compressed_messages_read"); }
	// label types which are reserved are neither lengths nor pointers, wherever they would lead
	let mut m = Msg::new(&short_name(&mut r), TXT);
	let n = 0x3f00 - 60 + r.below(300);
	m.sections[0].push(item(Rec::new(&Nm::root(), RD::Txt((0..n).map(|_| r.byte()).collect())), 1 << 20));
	let far = Nm::root().child("far").child("far-away");
	for _ in 0..r.range(2, 6) { m.sections[0].push(item(Rec::new(&far, RD::A([1, 2, 3, 4])), 1 << 20)); }
	let mut b = encode(&mut r, &m, Comp::Std);
	let at: Vec<usize> = record_starts(&b).into_iter().filter(|s| b[*s] & 0xc0 == 0xc0).collect();
	if at.is_empty() { return Ok(()); }
	let at = *r.pick(&at);
	b[at] = b[at] & 0x3f | if r.chance(1, 2) { 0x80 } else { 0x40 };
	c.count("reserved_label_types");
	if b[at] & 0x3f == 0x3f { c.count("reserved_label_types_next_to_pointers"); }
	one(c, &b)?;
	Ok(())
}

pub fn checks() -> Vec<Check> {
	let _: Option<BTreeMap<u8, u8>> = None;
	vec![Check {
		id: "C15", rule: "Each case runs one proof builder and a model of it side by side over a series of up to 40 responses (correct, damaged, repeated, late, naming any zones as signers, with the \
			number of queries needed spread around the limit); every query is decoded, every awaiting state, verdict, final proof and lifetime compared. A case is non-trivial when its responses are distinct.",
		phases: vec![Phase::new("limit", 6000, 300_000, c15_limit), Phase::new("rejected", 4000, 200_000, c15_rejected), Phase::new("history", 6000, 300_000, c15_history)],
		required: &["queries_judged", "responses_accepted", "responses_rejected", "limit_exceeded", "proofs_judged", "builds_without_proof", "responses_without_query_refused", "needed 10 queries", "needed 11 queries", "needed 09 queries"],
		assumptions: &["Messages whose encoding readers may legitimately differ on (see DESIGN.md) are only judged when accepted."],
		known: vec![],
	}, Check {
		id: "C16", rule: "Each case hands one resolver message to a fresh proof builder: all 65536 flag words, all 65536 transaction ids, all small section counts, every truncation and byte change of generated messages, and \
			random messages with compression, odd sections and damage; an independent reader of DNS messages decides acceptance and what the proof must then hold. Distinct messages are non-trivial.",
		phases: vec![Phase::new("flags", 256, 256, c16_flags), Phase::new("ids", 256, 256, c16_ids), Phase::new("counts", 48, 48 * 20, c16_counts), Phase::new("cut", 60, 4000, c16_cut), Phase::new("random", 8000, 500_000, c16_random)],
		required: &["responses_accepted", "responses_rejected", "proofs_judged", "flag_words_tried", "section_counts_tried", "cut_messages", "rejected: not authenticated", "rejected: truncated message",
			"rejected: response code", "rejected: not a standard query", "rejected: not a response", "rejected: question count", "rejected: no answer", "rejected: answer", "rejected: authority", "rejected: transaction id"],
		assumptions: &["Messages whose encoding readers may legitimately differ on (see DESIGN.md) are only judged when accepted."],
		known: vec![],
	}]
}
