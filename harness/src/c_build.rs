//! C17: building proofs from a resolver, through every interface.

use std::collections::BTreeSet;
use std::sync::atomic::Ordering;

use dnssec_prover::query::*;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::verify_rr_stream;

use crate::c_chain::set_anchors;
use crate::c_query::*;
use crate::dns::*;
use crate::net::*;
use crate::util::*;
use crate::world::*;
use crate::{ensure, viol};

type Built = Result<(Vec<u8>, u32), String>;

fn blocking(addr: std::net::SocketAddr, n: &Nm, ty: u16) -> Result<Built, Viol> {
	let n = n.lib();
	guard("build proof (blocking)", || match ty { A => build_a_proof(addr, &n), AAAA => build_aaaa_proof(addr, &n), TXT => build_txt_proof(addr, &n), _ => build_tlsa_proof(addr, &n) }
		.map_err(|e| e.to_string()))
}
fn asynchronous(addr: std::net::SocketAddr, n: &Nm, ty: u16) -> Result<Built, Viol> {
	let n = n.lib();
	let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().expect("runtime");
	guard("build proof (async)", || rt.block_on(async {
		match ty { A => build_a_proof_async(addr, &n).await, AAAA => build_aaaa_proof_async(addr, &n).await, TXT => build_txt_proof_async(addr, &n).await, _ => build_tlsa_proof_async(addr, &n).await }
	}).map_err(|e| e.to_string()))
}
/// Drives the builder by hand, answering in any order
fn driven(rng: &mut Rng, p: &Plan) -> Result<Built, Viol> {
	let n = p.name.lib();
	let (mut b, q) = guard("ProofBuilder::new", || ProofBuilder::new(&n, p.ty))?;
	let mut queue = vec![q.into_vec()];
	while guard("awaiting_responses", || b.awaiting_responses())? {
		if queue.is_empty() { viol!("the builder awaits responses to no query"); }
		let q = queue.remove(rng.below(queue.len()));
		let (id, n, t) = read_query(&q).map_err(|e| Viol(format!("a query {}: {}", e, hex(&q))))?;
		let Some(m) = p.msgs.get(&(n.clone(), t)) else { viol!("asked for {} type {}, which no correct answer calls for", n, t) };
		let mut m = m.clone();
		m[..2].copy_from_slice(&id.to_be_bytes());
		match guard("process_response", || b.process_response(&qbuf(&m)))? {
			Ok(v) => queue.extend(v.into_iter().map(|q| q.into_vec())),
			Err(()) => viol!("a correct response for {} type {} was rejected: {}", n, t, hex(&m)),
		}
	}
	Ok(guard("finish_proof", || b.finish_proof())?.map_err(|()| "no proof".to_string()))
}

/// A proof that was built must be right in every respect
pub fn judge_proof(c: &mut Case, w: &World, p: &Plan, proof: &[u8], ttl: u32, how: &str) -> R {
	let rrs = match guard("parse_rr_stream", || parse_rr_stream(proof))? { Ok(r) => r, Err(()) => viol!("{}: the proof for {} type {} does not parse", how, p.name, p.ty) };
	let mut got: Vec<Rec> = rrs.iter().map(Rec::from_lib).collect();
	got.sort();
	let want = p.records();
	if got != want {
		let (g, e): (BTreeSet<_>, BTreeSet<_>) = (got.iter().cloned().collect(), want.iter().cloned().collect());
		viol!("{}: the proof for {} type {} lacks\n{}and has beyond the responses\n{}", how, p.name, p.ty, show(&e.difference(&g).cloned().collect::<Vec<_>>()), show(&g.difference(&e).cloned().collect::<Vec<_>>()));
	}
	ensure!(ttl == p.min_ttl, "{}: the lifetime is {} instead of {}", how, ttl, p.min_ttl);
	set_anchors(w.anchors());
	match guard("verify_rr_stream", || verify_rr_stream(&rrs).map(|v| v.resolve_name(&p.name.lib()).into_iter().map(Rec::from_lib).collect::<BTreeSet<_>>()))? {
		Err(e) => viol!("{}: the proof for {} type {} does not verify: {:?}", how, p.name, p.ty, e),
		Ok(r) => ensure!(r == p.expect, "{}: {} type {} resolves to\n{}instead of\n{}", how, p.name, p.ty, show(&r.into_iter().collect::<Vec<_>>()), show(&p.expect.iter().cloned().collect::<Vec<_>>())),
	}
	c.count("proofs_verified");
	if proof.len() > 65535 { c.count("proofs_over_64_kib"); }
	if p.expect.len() > 50 { c.count("names_with_many_records"); }
	Ok(())
}

/// A tree whose chains need few enough queries, or some too many
pub fn tree(rng: &mut Rng, deep: bool) -> World {
	let mut cfg = if rng.chance(1, 4) { Cfg::rich() } else { Cfg::fast() };
	cfg.cname = 25;
	cfg.dname = 15;
	cfg.zones = if deep { (5, 9) } else { (2, 5) };
	cfg.tall = deep;
	let mut w = World::gen(rng, &cfg);
	// a set of very many records, which are short in messages and long in proofs
	if rng.chance(1, 6) {
		let i = rng.below(w.zones.len());
		let mut o = w.zones[i].apex.clone();
		for _ in 0..3 { let n = *rng.pick(&[1, 60, 60]); if o.text_len() < 180 { o = o.child(&"l".repeat(n)); } }
		let n = *rng.pick(&[30usize, 70, 150, 350, 700]);
		let rds = (0..n).map(|i| if n % 4 == 2 { RD::A([10, 0, (i >> 8) as u8, i as u8]) } else { RD::Tlsa(3, 1, 0, vec![(i >> 8) as u8, i as u8]) }).collect::<Vec<_>>();
		let t = rds[0].ty();
		if !w.zones[i].attacker && w.free_for(i, &o, false) {
			w.zones[i].sets.insert((o, t), rds);
			w.zones[i].finish();
			w.cache.borrow_mut().clear();
		}
	}
	w
}
pub fn some_plans(rng: &mut Rng, w: &World, n: usize) -> Vec<Plan> {
	let mut v: Vec<Plan> = Vec::new();
	for _ in 0..n * 12 {
		if v.len() >= n { break; }
		let mut ty = *rng.pick(&[A, AAAA, TXT, TXT, TLSA]);
		let name = if rng.chance(1, 2) {
			let z = rng.pick(&w.zones);
			let k: Vec<&(Nm, u16)> = z.sets.keys().collect();
			if k.is_empty() { continue; }
			let k = rng.pick(&k);
			if matches!(k.1, A | AAAA | TXT | TLSA) && rng.chance(1, 2) { ty = k.1; }
			let o = &k.0;
			if o.is_wild() && rng.chance(4, 5) { let p = o.parent(); p.child(*rng.pick(&LABELS)) } else { o.clone() }
		} else { w.interesting_names(rng, 1).pop().unwrap() };
		// where a wildcard answers, names can be as long as they get
		let name = if rng.chance(1, 6) && w.lookup(&name, ty).map(|u| u.set.owner.is_wild()).unwrap_or(false) {
			let (mut n, one) = (name, rng.chance(1, 3));
			let len = rng.range(200, 255);
			while n.text_len() + 2 <= len { let k = (len - n.text_len() - 1).min(if one { 1 } else { rng.range(1, 63) }); n = n.child(&"q".repeat(k)); }
			n
		} else { name };
		if name.text_len() > 255 || v.iter().any(|p| p.name == name && p.ty == ty) { continue; }
		if let Some(p) = plan(w, rng, &name, ty) { v.push(p); }
	}
	v
}

pub fn c17_correct(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let deep = rng.chance(1, 4);
	let w = tree(&mut rng, deep);
	for p in some_plans(&mut rng, &w, 3) {
		c.artifact("asked", format!("{} type {}, {} queries needed", p.name, p.ty, p.needed));
		let script = Script { answers: p.msgs.clone().into_iter().collect(), fragment: 50, reorder: 50, pause: 15, ..Default::default() };
		let mut r = Resolver::start(rng.next(), script);
		for how in ["blocking", "async", "caller-driven"] {
			let got = match how { "blocking" => blocking(r.addr, &p.name, p.ty)?, "async" => asynchronous(r.addr, &p.name, p.ty)?, _ => driven(&mut rng, &p)? };
			c.eval();
			c.nontrivial(fnv(format!("{}{}{}{}", p.name, p.ty, how, p.min_ttl).as_bytes()) ^ rng.next());
			if p.needed <= MAX_QUERIES {
				match got {
					Ok((proof, ttl)) => { judge_proof(c, &w, &p, &proof, ttl, how)?; c.count(&format!("built with {:02} queries", p.needed)); },
					Err(e) => viol!("{}: no proof for {} type {} though {} queries suffice: {}", how, p.name, p.ty, p.needed, e),
				}
			} else {
				ensure!(got.is_err(), "{}: a proof for {} type {} although that needs {} queries", how, p.name, p.ty, p.needed);
				c.count("too_many_queries_needed");
			}
		}
		r.stop();
		absorb(c, &r)?;
		if p.name.text_len() > 230 { c.count("queries_over_255_bytes"); }
		if p.expect.iter().any(|x| x.name != p.name) { c.count("answers_by_way_of_redirects"); }
		if p.kept[&(p.name.clone(), p.ty)].iter().any(|(x, _)| matches!(x.ty(), NSEC | NSEC3)) { c.count("answers_from_wildcards"); }
		if c.idx < 3 { c.sample(|| format!("{} type {}: {} queries, {} records, lifetime {}", p.name, p.ty, p.needed, p.records().len(), p.min_ttl)); }
	}
	Ok(())
}
pub fn absorb(c: &mut Case, r: &Resolver) -> R {
	let s = &r.seen;
	if let Some(w) = s.wrong.lock().unwrap().first() { viol!("{}", w); }
	ensure!(s.max_queries.load(Ordering::Relaxed) <= MAX_QUERIES as u64, "{} queries on one connection", s.max_queries.load(Ordering::Relaxed));
	ensure!(s.idle.load(Ordering::Relaxed) == 0, "a build went on waiting after all its queries were answered");
	c.add("resolver_connections", s.connections.load(Ordering::Relaxed).saturating_sub(1));
	c.add("resolver_queries", s.queries.load(Ordering::Relaxed));
	c.add("answers_reordered", s.reordered.load(Ordering::Relaxed));
	c.add("answers_fragmented", s.fragmented.load(Ordering::Relaxed));
	c.add("faults_delivered", s.faults.load(Ordering::Relaxed));
	Ok(())
}
pub fn c17_faults(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let w = tree(&mut rng, false);
	for p in some_plans(&mut rng, &w, 2) {
		for how in ["blocking", "async"] {
			let k = rng.below(p.needed.min(10));
			let fault = match rng.below(8) {
				0 | 1 => Fault::Close(k),
				2 | 3 => Fault::Partial(k),
				4 => Fault::Endless(rng.range(1, 12) as u8),
				_ => Fault::Garbage(k, rng.below(GARBAGE_KINDS as usize) as u8),
			};
			c.artifact("asked", format!("{} type {}, {} queries needed, fault {:?}, {}", p.name, p.ty, p.needed, fault, how));
			let mut script = Script { answers: p.msgs.clone().into_iter().collect(), fragment: 30, reorder: 50, pause: 10, ..Default::default() };
			script.faults.insert((p.name.clone(), p.ty), fault.clone());
			let mut r = Resolver::start(rng.next(), script);
			c.eval();
			c.nontrivial(rng.next());
			let got = if how == "blocking" { blocking(r.addr, &p.name, p.ty)? } else { asynchronous(r.addr, &p.name, p.ty)? };
			r.stop();
			ensure!(got.is_err(), "{}: a proof for {} type {} although the resolver failed ({:?})", how, p.name, p.ty, fault);
			let answers = r.seen.answers.load(Ordering::Relaxed);
			ensure!(answers <= 2 * MAX_QUERIES as u64, "{} responses were taken before giving up", answers);
			c.count(&format!("failed as it should: {}", match &fault { Fault::Garbage(_, k) => format!("garbage {:02}", k), f => format!("{:?}", f).split('(').next().unwrap().to_string() }));
			absorb(c, &r)?;
		}
	}
	// nobody there at all
	if c.idx % 16 == 0 {
		let l = loopback_listener(rng.next());
		let a = l.local_addr().unwrap();
		drop(l);
		let n = Nm::new("nobody.example.");
		// somebody else's socket may have taken the port by now, but would not answer either
		if let Ok(_) = blocking(a, &n, TXT)? { viol!("a proof without a resolver"); }
		c.count("failed as it should: refused");
	}
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C17", rule: "Each case generates a signed DNS and proves up to three names of it (redirects, wildcards, 2-9 zones, so 3-19 queries) against a mock resolver on the loopback interface that \
			fragments, delays and reorders its answers, through the blocking, the asynchronous and the caller-driven interface; or makes the resolver fail (closing, partial, 13 kinds of garbage, endless \
			work) after each possible number of answers. The proof is parsed, compared with what the resolver said, verified and resolved. Every build is a distinct history.",
		phases: vec![Phase::new("correct", 1_500, 60_000, c17_correct), Phase::new("faults", 1_500, 60_000, c17_faults)],
		required: &["proofs_over_64_kib", "names_with_many_records", "proofs_verified", "too_many_queries_needed", "built with 10 queries", "built with 02 queries", "answers_reordered", "answers_fragmented", "faults_delivered", "answers_by_way_of_redirects",
			"answers_from_wildcards", "queries_over_255_bytes", "failed as it should: Close", "failed as it should: Partial", "failed as it should: Endless"],
		assumptions: &["The resolver answers each query once; answers to questions nobody asked are outside the property."],
		known: vec![],
	}]
}
