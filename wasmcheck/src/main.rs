//! C13, C19: the web bindings, called natively, against the library.

mod js;

use std::collections::BTreeSet;

use dnssec_prover::rr::Name;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::verify_rr_stream;
use dnssec_prover_wasm::*;

use vh::c_build::*;
use vh::c_chain::set_anchors;
use vh::c_codec::*;
use vh::c_query::*;
use vh::dns::*;
use vh::json;
use vh::util::*;
use vh::world::*;
use vh::{ensure, viol};

/// What the bindings say of a stream, against what the library says of it
fn judge_stream(c: &mut Case, b: &[u8]) -> R {
	c.eval();
	c.nontrivial(fnv(b));
	let v = b.to_vec();
	let s = guard("verify_byte_stream", || verify_byte_stream(v))?;
	let j = json::parse(&s).map_err(|e| format!("invalid JSON ({}): {}", e, s.chars().take(1500).collect::<String>()))?;
	let json::J::Obj(fields) = &j else { viol!("not an object: {}", s) };
	let parsed = guard("parse_rr_stream", || parse_rr_stream(b))?;
	let rrs = match parsed {
		Err(()) => {
			ensure!(fields.len() == 1 && j.get("error").is_some(), "no error for a stream that does not parse: {}", s);
			c.count("streams_that_do_not_parse");
			return Ok(());
		},
		Ok(r) => r,
	};
	match guard("verify_rr_stream", || verify_rr_stream(&rrs))? {
		Err(e) => {
			ensure!(fields.len() == 1 && j.get("error").and_then(|x| x.str()).is_some(), "no error for a stream that does not verify ({:?}): {}", e, s);
			c.count("streams_that_do_not_verify");
		},
		Ok(v) => {
			ensure!(j.get("error").is_none(), "an error for a stream that verifies: {}", s);
			for (k, n) in [("valid_from", v.valid_from), ("expires", v.expires), ("max_cache_ttl", v.max_cache_ttl as u64)] {
				ensure!(j.get(k).and_then(|x| x.int()) == Some(n), "{} is {:?} instead of {}", k, j.get(k), n);
			}
			let Some(list) = j.get("verified_rrs").and_then(|x| x.arr()) else { viol!("no records: {}", s) };
			let mut got = Vec::new();
			for x in list { got.push(from_json(x).map_err(|e| format!("JSON does not denote a record ({}): {:?}", e, x))?); }
			let set: BTreeSet<Rec> = got.iter().cloned().collect();
			let want: BTreeSet<Rec> = v.verified_rrs.iter().map(|r| Rec::from_lib(r)).collect();
			ensure!(set.len() == got.len() && set == want, "the records are\n{}instead of\n{}", show(&got), show(&want.into_iter().collect::<Vec<_>>()));
			if v.expires > u32::MAX as u64 { c.count("streams_valid_beyond_2106"); }
			c.count("streams_that_verify");
			if got.len() > 50 { c.count("streams_of_many_records"); }
			c.add("verified_records_decoded", got.len() as u64);
			if c.idx < 3 { c.sample(|| s.chars().take(300).collect()); }
		},
	}
	Ok(())
}
fn streams(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let mut w = tree(&mut rng, false);
	// any time of validity, also beyond the 32 bits
	match rng.below(5) {
		0 => w.times = Times { inc: (4_294_000_000, u32::MAX), exp: (0, 3_000_000), ttl: (0, u32::MAX), ..Times::default() },
		1 => w.times = Times { inc: (0, 500_000), exp: (500_001, 800_000_000), ttl: (0, 100), ..Times::default() },
		2 => w.times = Times { inc: (NOW - 10, NOW), exp: (NOW + 1, NOW + 20), ttl: (u32::MAX - 3, u32::MAX), ..Times::default() },
		_ => {},
	}
	set_anchors(w.anchors());
	for _ in 0..4 {
		let names = w.interesting_names(&mut rng, 3);
		let mut recs: Vec<Rec> = Vec::new();
		for n in names { for t in [A, TXT, TLSA] { if let Some(a) = w.answer(&n, t) { if rng.chance(2, 3) { recs.extend(w.proof(&[&a])); } } } }
		for z in w.zones.iter() { for (n, t) in z.sets.keys() { if rng.chance(1, 4) { if let Some(a) = w.answer(n, *t) { recs.extend(w.proof(&[&a])); } } } }
		if rng.chance(2, 3) { let mut seen = BTreeSet::new(); recs.retain(|r| seen.insert(r.clone())); }
		if rng.chance(1, 2) { rng.shuffle(&mut recs); }
		let enc = |recs: &[Rec]| -> Vec<u8> { recs.iter().flat_map(|r| r.wire(77)).collect() };
		let whole = enc(&recs);
		c.reset_artifacts();
		c.artifact("stream", hex(&whole));
		judge_stream(c, &whole)?;
		for _ in 0..4 {
			let mut b = match rng.below(6) {
				0 if !recs.is_empty() => { let mut r = recs.clone(); r.remove(rng.below(recs.len())); enc(&r) },
				1 => { let mut r = recs.clone(); let extra = any_rec(&mut rng); r.insert(rng.below(recs.len() + 1), extra); enc(&r) },
				2 if !recs.is_empty() => { let mut r = recs.clone(); let i = rng.below(r.len()); let mut x = any_rec(&mut rng); x.name = r[i].name.clone(); r[i] = x; enc(&r) },
				_ => whole.clone(),
			};
			if !b.is_empty() && rng.chance(1, 2) { let i = rng.below(b.len()); match rng.below(4) { 0 => b[i] ^= 1 << rng.below(8), 1 => b[i] = rng.byte(), 2 => b.truncate(i), _ => b.insert(i, rng.byte()) } }
			c.reset_artifacts();
			c.artifact("stream", hex(&b));
			judge_stream(c, &b)?;
		}
	}
	let n = rng.below(200);
	let b = rng.bytes(n);
	judge_stream(c, &b)
}
/// One message at a time, where nothing verifies but all of it may parse
fn unverified(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let w = tree(&mut rng, false);
	set_anchors(w.anchors());
	for _ in 0..6 {
		let k = rng.below(6);
		let mut b: Vec<u8> = (0..k).flat_map(|_| any_rec(&mut rng).wire(1)).collect();
		if !b.is_empty() && rng.chance(1, 2) { let i = rng.below(b.len()); match rng.below(3) { 0 => b[i] = rng.byte(), 1 => b.truncate(i), _ => b.push(0) } }
		c.reset_artifacts();
		c.artifact("stream", hex(&b));
		judge_stream(c, &b)?;
	}
	Ok(())
}

// ---------------------------------------------------------------- C19: building

fn names(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	for _ in 0..10 {
		let base = any_name(&mut r).text();
		let mut s: Vec<char> = base.chars().collect();
		if r.chance(1, 2) { s.pop(); }
		if r.chance(1, 3) { for ch in s.iter_mut() { if r.chance(1, 2) { *ch = ch.to_ascii_uppercase(); } } }
		if r.chance(1, 2) {
			for _ in 0..r.range(1, 2) {
				let i = r.below(s.len() + 1);
				let ch = *r.pick(&['.', '.', '"', ' ', '\\', '\u{7f}', '\u{e9}', '\0', 'A', '!', '*']);
				match r.below(3) { 0 => s.insert(i, ch), 1 if i < s.len() => s[i] = ch, _ => { let k = *r.pick(&[1, 60, 63, 64, 200]); for _ in 0..k { s.insert(i, ch); } } }
			}
		}
		one_name(c, &s.iter().collect::<String>(), r.u16b())?;
	}
	if c.idx == 0 { for s in ["", ".", "..", "a", "a.", ".a", "a..", "a..b", " ", "é", "A.B"] { one_name(c, s, TXT)?; } }
	Ok(())
}
fn one_name(c: &mut Case, s: &str, ty: u16) -> R {
	c.eval();
	c.nontrivial(fnv(s.as_bytes()) ^ ty as u64);
	let full = if s.ends_with('.') { s.to_string() } else { format!("{}.", s) };
	let want = guard("Name::try_from", || Name::try_from(full.as_str()))?;
	let text = s.to_string();
	let got = guard("init_proof_builder", || init_proof_builder(text, ty))?;
	match (want, got) {
		(Err(()), None) => { c.count("names_refused"); Ok(()) },
		(Err(()), Some(_)) => viol!("a builder for {:?}", s),
		(Ok(_), None) => viol!("no builder for {:?}", s),
		(Ok(n), Some(mut b)) => {
			let q = match guard("get_next_query", || get_next_query(&mut b))? { Some(q) => q, None => viol!("no first query for {:?}", s) };
			let (_, qn, qt) = read_query(&q).map_err(|e| format!("the first query {}: {}", e, hex(&q)))?;
			ensure!(qn.text() == n.as_str() && qt == ty, "asked for {} type {} instead of {} type {}", qn, qt, n.as_str(), ty);
			ensure!(guard("get_next_query", || get_next_query(&mut b))?.is_none(), "a second query without a response");
			ensure!(guard("get_unverified_proof", || get_unverified_proof(b))?.is_none(), "a proof without a response");
			c.count("names_accepted");
			Ok(())
		},
	}
}
/// Both builders side by side
struct Both { lib: Pair, web: WASMProofBuilder, id: u16, want: Vec<Vec<u8>>, got: Vec<Vec<u8>> }
impl Both {
	fn start(c: &mut Case, rng: &mut Rng, name: &Nm, ty: u16) -> Result<Both, Viol> {
		let (lib, q) = Pair::start(c, name, ty)?;
		let mut text = name.text();
		if rng.chance(1, 2) && text.len() > 1 { text.pop(); }
		let t2 = text.clone();
		let mut web = match guard("init_proof_builder", || init_proof_builder(t2, ty))? { Some(w) => w, None => viol!("no builder for {:?}", text) };
		let q2 = match guard("get_next_query", || get_next_query(&mut web))? { Some(q) => q, None => viol!("no first query") };
		let (id, n2, t2) = read_query(&q2).map_err(|e| format!("the first query {}: {}", e, hex(&q2)))?;
		ensure!(q[2..] == q2[2..] && n2 == *name && t2 == ty, "the first queries differ: {} and {}", hex(&q), hex(&q2));
		Ok(Both { lib, web, id, want: Vec::new(), got: Vec::new() })
	}
	/// A response to both; it may be anything. Queries may be left for later.
	fn feed(&mut self, c: &mut Case, rng: &mut Rng, msg: &[u8]) -> R {
		let mut theirs = msg.to_vec();
		if msg.len() >= 2 && msg[..2] == self.lib.m.id.to_be_bytes() { theirs[..2].copy_from_slice(&self.id.to_be_bytes()); }
		let web = &mut self.web;
		guard("process_query_response", || process_query_response(web, theirs))?;
		if msg.len() > 65535 { c.count("overlong_responses"); } else { self.want.extend(self.lib.feed(c, msg)?.unwrap_or_default().into_iter().map(|x| x.2)); }
		let n = if rng.chance(1, 3) { rng.below(3) } else { 30 };
		if n < 30 { c.count("queries_left_for_later"); }
		self.fetch(c, n)
	}
	fn fetch(&mut self, c: &mut Case, n: usize) -> R {
		let web = &mut self.web;
		let mut dry = false;
		for _ in 0..n {
			match guard("get_next_query", || get_next_query(web))? { Some(q) => self.got.push(q), None => { dry = true; break } }
			if self.got.len() > 40 { viol!("queries without end"); }
		}
		if self.lib.m.lost() { return Ok(()); }
		let strip = |v: &[Vec<u8>]| { let mut v: Vec<Vec<u8>> = v.iter().map(|q| q[2.min(q.len())..].to_vec()).collect(); v.sort(); v };
		let (got, want) = (strip(&self.got), strip(&self.want));
		if dry { ensure!(got == want, "the web bindings ask {:?}, the library {:?}", got.iter().map(|q| hex(q)).collect::<Vec<_>>(), want.iter().map(|q| hex(q)).collect::<Vec<_>>()); c.add("queries_compared", got.len() as u64); }
		else { for q in got.iter() { ensure!(want.contains(q), "the web bindings ask {}, the library does not", hex(q)); } }
		for q in self.got.iter() { ensure!(q[..2] == self.id.to_be_bytes(), "a query with another transaction id"); }
		Ok(())
	}
	fn finish(self, c: &mut Case) -> R {
		let lost = self.lib.m.lost();
		let web = self.web;
		let got = guard("get_unverified_proof", || get_unverified_proof(web))?;
		let want = self.lib.finish(c)?.map(|x| x.0);
		if lost { return Ok(()); }
		ensure!(got == want, "the web bindings build {:?}, the library {:?}", got.map(|p| hex(&p)), want.map(|p| hex(&p)));
		Ok(())
	}
}
fn builds(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	let name = any_name(&mut r);
	let ty = if r.chance(1, 2) { TXT } else { r.u16b() };
	let mut b = Both::start(c, &mut r, &name, ty)?;
	let n = r.range(1, 6);
	let mut sg = pool(&mut r, n);
	if r.chance(1, 2) && !sg.contains(&Nm::root()) { sg.push(Nm::root()); }
	let bad = *r.pick(&[0, 2, 5, 15]);
	// proofs larger than any one message
	let large = r.chance(1, 12);
	let mut h = fnv(name.text().as_bytes());
	for _ in 0..r.range(1, 20) {
		let k = r.range(0, 2.min(sg.len()));
		r.shuffle(&mut sg);
		let mut m = gen_msg(&mut r, &sg[..k]);
		m.id = b.lib.m.id;
		if large { let n = r.range(5_000, 60_000); m.sections[0].push(item(Rec::new(&name, RD::Txt(vec![r.byte(); n])), 9)); }
		let cm = *r.pick(&[Comp::No, Comp::Std]);
		let mut x = encode(&mut r, &m, cm);
		if r.chance(bad, 20) { damage(&mut r, &mut x); }
		if r.chance(1, 12) { let n = *r.pick(&[65533usize, 65534, 65535, 65536, 65537, 66000, 131072, 131072 + 300]); if x.len() < n { x.resize(n, 0); } c.count("responses_around_the_limit"); }
		if r.chance(1, 30) { x.clear(); }
		h = h.rotate_left(5) ^ fnv(&x);
		b.feed(c, &mut r, &x)?;
		if b.lib.m.lost() { return Ok(()); }
		if b.lib.m.pending == 0 && r.chance(3, 4) { break; }
	}
	// the rest
	let mut i = 0u32;
	while r.chance(19, 20) && b.lib.m.pending > 0 && !b.lib.over() && i < 30 {
		let mut m = Msg::new(&Nm::root(), A);
		m.id = b.lib.m.id;
		i += 1;
		m.sections[0].push(item(Rec::new(&Nm::root(), RD::A(i.to_be_bytes())), u32::MAX));
		let x = encode(&mut r, &m, Comp::No);
		b.feed(c, &mut r, &x)?;
		if b.lib.m.lost() { return Ok(()); }
	}
	c.nontrivial(h);
	if b.lib.m.proof.len() > 65535 { c.count("proofs_over_65535_bytes"); }
	// queries nobody fetched do not stand in the way
	if r.chance(1, 2) { b.fetch(c, 100)?; } else { c.count("builds_finished_without_fetching"); }
	b.finish(c)
}

fn main() {
	let mut v = Vec::new();
	let mut phases = c13_record_phases();
	phases.push(Phase::new("streams", 600, 60_000, streams));
	phases.push(Phase::new("unverified", 3000, 300_000, unverified));
	v.push(Check {
		id: "C13", rule: "Each case turns generated records of every type (all TXT contents of two bytes, all Unicode characters, names with every byte) into JSON, or verifies streams of bytes through the web bindings \
			(whole, damaged and foreign proofs, any records), reads it with a strict JSON reader and compares with the record, or with what the library says of the stream. Distinct JSON texts and streams are non-trivial.",
		phases, required: &["txt_as_string", "txt_as_bytes", "names_with_backslashes", "records of type 1 decoded", "records of type 2 decoded", "records of type 5 decoded", "records of type 16 decoded", "records of type 28 decoded",
			"records of type 39 decoded", "records of type 43 decoded", "records of type 46 decoded", "records of type 47 decoded", "records of type 48 decoded", "records of type 50 decoded", "records of type 52 decoded",
			"streams_that_verify", "streams_that_do_not_verify", "streams_that_do_not_parse", "streams_of_many_records", "verified_records_decoded"],
		assumptions: &["The bindings are compiled natively, with the system's allocator."], known: vec![],
	});
	v.push(Check {
		id: "C19", rule: "Each case drives the library's builder, a model of it and the web bindings' builder side by side through a series of responses (correct, damaged, empty, up to and over 65535 bytes), \
			comparing every query and the proof; or offers texts as names; or verifies a stream of bytes both ways. Distinct series, names and streams are non-trivial.",
		phases: vec![Phase::new("names", 3000, 300_000, names), Phase::new("builds", 6000, 400_000, builds), Phase::new("streams", 500, 50_000, streams)],
		required: &["streams_of_many_records", "names_accepted", "names_refused", "queries_compared", "proofs_judged", "builds_without_proof", "overlong_responses", "responses_rejected", "queries_left_for_later", "proofs_over_65535_bytes", "builds_finished_without_fetching", "streams_valid_beyond_2106", "streams_that_verify", "streams_that_do_not_verify", "streams_that_do_not_parse"],
		assumptions: &["The bindings are compiled natively, with the system's allocator."], known: vec![],
	});
	v.push(js::check());
	let rc = main_with(v);
	js::clean();
	std::process::exit(rc)
}
