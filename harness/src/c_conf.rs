//! C23: the same results in every configuration the library can be built in. The builds run as processes of their own.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead as _, BufReader, Write as _};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use crate::c_build::*;
use crate::c_chain::mutate;
use crate::c_codec::*;
use crate::c_query::*;
use crate::dns::*;
use crate::net::*;
use crate::util::*;
use crate::world::*;
use crate::{ensure, viol};

struct Build { child: Child, w: ChildStdin, r: BufReader<ChildStdout> }
impl Drop for Build { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local! { static BUILDS: RefCell<BTreeMap<String, Build>> = RefCell::new(BTreeMap::new()); }
// What was said to commands of this case, to ask again later
thread_local! { static SAID: RefCell<Vec<(String, String, String)>> = RefCell::new(Vec::new()); }
/// Some processes start anew, so that they differ in what they did before
fn renew(c: &mut Case, rng: &mut Rng) {
	SAID.with(|s| s.borrow_mut().clear());
	for (n, _) in builds() { if rng.chance(1, 24) { if BUILDS.with(|b| b.borrow_mut().remove(&n)).is_some() { c.count("builds_started_anew"); } } }
}
/// The same commands again, in another order and after others
fn again(c: &mut Case, rng: &mut Rng) -> R {
	let mut said = SAID.with(|s| std::mem::take(&mut *s.borrow_mut()));
	rng.shuffle(&mut said);
	said.truncate(4);
	let all = builds();
	for (q, x, y) in said {
		let (n, p) = rng.pick(&all).clone();
		let a = ask(&n, &p, &q)?;
		c.reset_artifacts();
		c.artifact("command", q.chars().take(20_000).collect());
		ensure!(a.0 == x && (n.starts_with("builder") || a.1 == y), "the {} build says something else later: {}", n, if a.0 != x { cut(&x, &a.0) } else { cut(&y, &a.1) });
		c.count("asked_again_later");
	}
	Ok(())
}
/// Configurations and programs; the ones called builder… cannot verify
fn builds() -> Vec<(String, String)> {
	std::env::var("VH_CFGS").unwrap_or_else(|_| ["builder-debug", "builder-std", "default-debug", "default-release", "default-small", "full-debug", "full-release"].iter().map(|n| format!("{}=/verif/target/cfgs/bin/{}", n, n)).collect::<Vec<_>>().join(","))
		.split(',').map(|x| { let (a, b) = x.split_once('=').unwrap(); (a.into(), b.into()) }).collect()
}
fn ask(name: &str, path: &str, q: &str) -> Result<(String, String), Viol> {
	BUILDS.with(|b| {
		let mut b = b.borrow_mut();
		if !b.contains_key(name) {
			let mut child = Command::new(path).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("{}: {}", path, e));
			let (w, r) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
			b.insert(name.to_string(), Build { child, w, r });
		}
		let p = b.get_mut(name).unwrap();
		let mut l = String::new();
		let ok = p.w.write_all(q.as_bytes()).and_then(|_| p.w.write_all(b"\n")).and_then(|_| p.w.flush()).is_ok() && p.r.read_line(&mut l).unwrap_or(0) > 0;
		if !ok { let st = b.remove(name).map(|mut p| format!("{:?}", p.child.wait())); viol!("the {} build died: {}", name, st.unwrap_or_default()); }
		let (x, y) = l.trim_end_matches('\n').split_once('\t').expect("an answer in two parts");
		Ok((x.to_string(), y.to_string()))
	})
}
fn cut(a: &str, b: &str) -> String {
	let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
	let s = |x: &str| String::from_utf8_lossy(&x.as_bytes()[i.saturating_sub(60)..x.len().min(i + 200)]).to_string();
	format!("…{}… against …{}…", s(a), s(b))
}
/// All configurations must answer alike, and each alike when asked again
fn alike(c: &mut Case, q: &str) -> Result<String, Viol> {
	c.eval();
	c.nontrivial(fnv(q.as_bytes()));
	c.reset_artifacts();
	c.artifact("command", q.chars().take(20_000).collect());
	let mut common: Option<(String, String)> = None;
	let mut verdict: Option<(String, String)> = None;
	for (n, p) in builds() {
		let a = ask(&n, &p, q)?;
		if c.rng.clone().chance(1, 4) { let b = ask(&n, &p, q)?; ensure!(a == b, "the {} build says one thing and then another: {}", n, cut(&format!("{} / {}", a.0, a.1), &format!("{} / {}", b.0, b.1))); c.count("asked_again"); }
		match &common { None => common = Some((n.clone(), a.0)), Some((m, x)) => ensure!(*x == a.0, "the builds {} and {} differ: {}", m, n, cut(x, &a.0)) }
		if !n.starts_with("builder") { match &verdict { None => verdict = Some((n.clone(), a.1)), Some((m, x)) => ensure!(*x == a.1, "the builds {} and {} differ: {}", m, n, cut(x, &a.1)) } }
		c.count("answers_compared");
	}
	let (x, y) = (common.unwrap().1, verdict.unwrap().1);
	if c.idx < 2 { c.sample(|| format!("{}… gives {}… {}…", q.chars().take(60).collect::<String>(), x.chars().take(100).collect::<String>(), y.chars().take(100).collect::<String>())); }
	SAID.with(|s| s.borrow_mut().push((q.to_string(), x.clone(), y.clone())));
	Ok(if y.is_empty() { x } else { y })
}

fn streams(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let cfg = if rng.chance(1, 3) { Cfg::rich() } else { Cfg::fast() };
	let w = World::gen(&mut rng, &cfg);
	renew(c, &mut rng);
	let a: Vec<u8> = w.anchors().iter().flat_map(|d| Rec::from_lib(&dnssec_prover::rr::RR::DS(d.clone())).wire(0)).collect();
	for (n, p) in builds() { ask(&n, &p, &format!("A {}", hex(&a)))?; }
	for _ in 0..3 {
		let names = w.interesting_names(&mut rng, 4);
		let mut recs: Vec<Rec> = Vec::new();
		for n in names { for t in [A, TXT, TLSA] { if let Some(a) = w.answer(&n, t) { if rng.chance(2, 3) { recs.extend(w.proof(&[&a])); } } } }
		for z in w.zones.iter() { for (n, t) in z.sets.keys() { if rng.chance(1, 6) { if let Some(a) = w.answer(n, *t) { recs.extend(w.proof(&[&a])); } } } }
		recs.truncate(150);
		if rng.chance(1, 2) { rng.shuffle(&mut recs); }
		for i in 0..4 {
			let mut r = recs.clone();
			for _ in 0..i { if !r.is_empty() { mutate(&mut rng, &w, &mut r); } }
			if rng.chance(1, 6) { let x = any_rec(&mut rng); let at = rng.below(r.len() + 1); r.insert(at, x); }
			let mut b: Vec<u8> = r.iter().flat_map(|r| r.wire(77)).collect();
			if i > 1 && !b.is_empty() && rng.chance(1, 4) { let at = rng.below(b.len()); match rng.below(4) { 0 => b[at] ^= 1 << rng.below(8), 1 => b[at] = rng.byte(), 2 => b.truncate(at), _ => b.insert(at, rng.byte()) } }
			let x = alike(c, &format!("S {}", hex(&b)))?;
			c.count(match &x[..] { "unparsable" => "streams_that_do_not_parse", "Invalid" => "streams_that_do_not_verify", "UnsupportedAlgorithm" | "ValidationCountLimited" => "streams_with_other_errors", _ => "streams_that_verify" });
		}
	}
	for _ in 0..3 {
		let k = rng.range(1, 6);
		let b: Vec<u8> = (0..k).flat_map(|_| { let x = any_rec(&mut rng); vary(&mut rng, &x, 5) }).collect();
		alike(c, &format!("S {}", hex(&b)))?;
	}
	again(c, &mut rng)
}
fn building(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	renew(c, &mut rng);
	let w = tree(&mut rng, false);
	for p in some_plans(&mut rng, &w, 2) {
		let first = (p.name.clone(), p.ty);
		let order: Vec<Vec<u8>> = p.msgs.get(&first).into_iter().chain(p.msgs.iter().filter(|(k, _)| **k != first).map(|x| x.1))
			.map(|m| { let mut m = m.clone(); m[..2].copy_from_slice(&[0, 0]); m }).collect();
		for i in 0..3 {
			let mut v = order.clone();
			if i > 0 && rng.chance(1, 2) { let tail = &mut v[1..]; rng.shuffle(tail); }
			if i == 2 { for _ in 0..rng.range(1, 2) { let at = rng.below(v.len()); damage(&mut rng, &mut v[at]); } }
			let a = alike(c, &format!("B {} {} {}", hex(p.name.text().as_bytes()), p.ty, v.iter().map(|m| hex(m)).collect::<Vec<_>>().join(" ")))?;
			c.count(if a.ends_with(" none") { "builds_without_proof" } else { "builds_with_proof" });
		}
	}
	// any series
	let name = any_name(&mut rng);
	let n = rng.range(1, 6);
	let mut sg = pool(&mut rng, n);
	if !sg.contains(&Nm::root()) { sg.push(Nm::root()); }
	let mut v = Vec::new();
	for _ in 0..rng.range(1, 16) {
		let k = rng.range(0, 2.min(sg.len()));
		rng.shuffle(&mut sg);
		let mut m = gen_msg(&mut rng, &sg[..k]);
		m.id = 0;
		let cm = *rng.pick(&[Comp::No, Comp::Std]);
		let mut x = encode(&mut rng, &m, cm);
		if rng.chance(1, 6) { damage(&mut rng, &mut x); }
		if !x.is_empty() { v.push(hex(&x)); }
	}
	let ty = rng.u16b();
	alike(c, &format!("B {} {} {}", hex(name.text().as_bytes()), ty, v.join(" ")))?;
	again(c, &mut rng)
}
fn texts(c: &mut Case) -> R {
	let mut r = c.rng.clone();
	renew(c, &mut r);
	for _ in 0..6 {
		let mut s: Vec<char> = any_name(&mut r).text().chars().collect();
		if r.chance(1, 3) { s.pop(); }
		for ch in s.iter_mut() { if r.chance(1, 6) { *ch = ch.to_ascii_uppercase(); } }
		if r.chance(1, 2) { let i = r.below(s.len() + 1); let ch = *r.pick(&['.', '"', ' ', '\\', '\u{7f}', '\u{e9}', '\0', 'A', '*', '\u{1f600}']); let k = *r.pick(&[1, 1, 2, 62, 63, 64, 250]); for _ in 0..k { s.insert(i, ch); } }
		let t: String = s.into_iter().collect();
		alike(c, &format!("N {}", hex(t.as_bytes())))?;
	}
	for _ in 0..3 {
		let n = *r.pick(&[0usize, 1, 2000, 2047, 2048, 2049, 4000, 65535]);
		let mut left = 65535 - n;
		let mut q = format!("Q {}", n);
		for _ in 0..r.range(0, 5) { let k = (*r.pick(&[0usize, 1, 47, 48, 49, 2047, 2048, 2049, 5000])).min(left); left -= k; if k > 0 { q += " "; q += &hex(&r.bytes(k)); } }
		alike(c, &q)?;
	}
	again(c, &mut r)
}
/// The optimised library (this program's own) over sockets
fn network(c: &mut Case) -> R {
	if c.idx % 2 == 0 { c17_correct(c)? } else { c17_faults(c)? }
	c.count("builds_over_the_network");
	Ok(())
}
fn server(c: &mut Case) -> R { crate::c_http::c18_mixed(c)?; c.count("sessions_with_the_server"); Ok(()) }

/// What other checks judge, on the optimised library
fn oracles(c: &mut Case) -> R {
	let all: Vec<(&str, Phase)> = [crate::c_chain::checks(), crate::c_codec::checks(), crate::c_work::checks(), crate::c_query::checks(), crate::c_err::checks()]
		.into_iter().flatten().flat_map(|k| { let id = k.id; k.phases.into_iter().map(move |p| (id, p)) }).collect();
	let (id, p) = &all[c.idx as usize % all.len()];
	c.artifact("phase", format!("{} {}", id, p.name));
	(p.f)(c)?;
	c.count(&format!("cases of {}", id));
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C23", rule: "Each case gives the same commands (signed proofs, right and mutated, and any records to parse, print, sort, verify and resolve; series of responses to build from; texts as names; buffer operations) to processes \
			built in seven configurations (with and without validation, std, tokio; unoptimised with debug assertions, optimised for speed and for size) and compares all they say; or judges the optimised library by cases of other checks, \
			also over sockets, and the optimised server. Distinct commands are non-trivial.",
		phases: vec![Phase::new("streams", 400, 40_000, streams), Phase::new("building", 800, 60_000, building), Phase::new("texts", 1_500, 150_000, texts),
			Phase::new("oracles", 2_500, 150_000, oracles), Phase::new("network", 250, 10_000, network), Phase::new("server", 25, 1_000, server)],
		required: &["answers_compared", "asked_again", "asked_again_later", "builds_started_anew", "streams_that_verify", "streams_that_do_not_verify", "streams_that_do_not_parse", "builds_with_proof", "builds_without_proof", "builds_over_the_network", "sessions_with_the_server", "cases of C01", "cases of C02", "cases of C03", "cases of C10", "cases of C15", "cases of C21", "proofs_verified"],
		assumptions: &["x86-64 only, one compiler version."],
		known: vec![],
	}]
}
