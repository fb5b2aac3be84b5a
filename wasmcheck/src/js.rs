//! C22: the browser's DNS-over-HTTPS lookup (doh_lookup.js), run by node against the bindings and a mock resolver.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead as _, BufReader, Write as _};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;

use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::verify_rr_stream;
use dnssec_prover_wasm::*;

use vh::c_build::*;
use vh::c_chain::set_anchors;
use vh::c_codec::from_json;
use vh::c_query::*;
use vh::dns::*;
use vh::json::{self, J};
use vh::net::*;
use vh::util::*;
use vh::world::*;
use vh::{ensure, viol};

/// A directory with the lookup as it is now beside what stands in for the generated bindings
fn dir() -> &'static PathBuf {
	static DIR: OnceLock<PathBuf> = OnceLock::new();
	DIR.get_or_init(|| {
		let d = PathBuf::from(format!("/verif/target/js/{}", std::process::id()));
		std::fs::create_dir_all(&d).expect("a directory for the scripts");
		for f in ["driver.mjs", "dnssec_prover_wasm.js", "package.json"] { std::fs::copy(format!("/verif/wasmcheck/js/{}", f), d.join(f)).expect("copying the driver"); }
		std::fs::copy("/repo/wasmpack/doh_lookup.js", d.join("doh_lookup.js")).expect("copying doh_lookup.js");
		d
	})
}
pub fn clean() { let _ = std::fs::remove_dir_all(format!("/verif/target/js/{}", std::process::id())); }

struct Node { child: Child, to: ChildStdin, from: BufReader<ChildStdout> }
impl Node {
	fn start() -> Result<Node, Viol> {
		let mut child = Command::new("node").arg("driver.mjs").current_dir(dir()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("node");
		let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
		// what scripts print is of no interest, but has to go somewhere
		let mut err = child.stderr.take().unwrap();
		std::thread::spawn(move || { let _ = std::io::copy(&mut err, &mut std::io::sink()); });
		let mut n = Node { child, to, from };
		let m = n.read()?;
		match m.get("op").and_then(|x| x.str()) {
			Some("ready") => Ok(n),
			_ => viol!("doh_lookup.js cannot be loaded: {:?}", m),
		}
	}
	fn read(&mut self) -> Result<J, Viol> {
		let mut s = String::new();
		let n = self.from.read_line(&mut s).expect("reading from node");
		if n == 0 { viol!("node ended: {:?}", self.child.wait()); }
		Ok(json::parse(&s).unwrap_or_else(|e| panic!("the driver sent {:?}: {}", s, e)))
	}
	fn write(&mut self, s: &str) { let _ = self.to.write_all(s.as_bytes()); let _ = self.to.write_all(b"\n"); let _ = self.to.flush(); }
}
impl Drop for Node { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
thread_local!(static NODE: RefCell<Option<Node>> = RefCell::new(None));
thread_local!(static NEXT: RefCell<u64> = RefCell::new(0));

#[derive(Clone, Debug)]
enum Fault { Status(u16), Throw(u8, String), Breaks(String), Garbage(u8), Oversized }
#[derive(Clone, Debug)]
enum Want { Records, Error, ErrorUnasked }
struct Lookup { domain: String, ty: String, endpoint: String, base: String, after: usize, plan: Option<Plan>, fault: Option<(usize, Fault)>, want: Want,
	asked: Vec<(Nm, u16)>, faulted: bool }

fn text_of(rng: &mut Rng) -> String {
	let pieces = ["Failed to fetch", "\"", "\\", "\n", "\r\n", "\t", "\u{0}", "\u{1f}", "\u{2028}", "NetworkError when attempting to fetch resource.", "'", "{\"verified_rrs\":[]}", "\u{e9}", "\u{1f600}", "\\u0000", "https://doh.example/?x=\"y\"", "C:\\dns"];
	if rng.chance(1, 6) { return "Load failed".into(); }
	(0..rng.range(1, 4)).map(|_| *rng.pick(&pieces)).collect::<Vec<_>>().join(" ")
}
fn any_case(rng: &mut Rng, s: &str) -> String { let k = rng.below(3); s.chars().map(|c| match k { 0 => c, 1 => c.to_ascii_uppercase(), _ => if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } }).collect() }
fn ty_name(t: u16) -> &'static str { match t { A => "a", AAAA => "aaaa", TXT => "txt", _ => "tlsa" } }
fn b64url(s: &str) -> Result<Vec<u8>, String> {
	let mut out = Vec::new();
	let (mut acc, mut bits) = (0u32, 0);
	for c in s.bytes() {
		let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'-' => 62, b'_' => 63, _ => return Err(format!("{:?} is not base64url without padding", s)) };
		acc = acc << 6 | v as u32;
		bits += 6;
		if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
	}
	if bits >= 6 || acc != 0 { return Err(format!("{:?} is not base64url", s)); }
	Ok(out)
}
fn s<'a>(m: &'a J, k: &str) -> &'a str { m.get(k).and_then(|x| x.str()).unwrap_or_else(|| panic!("no {} in {:?}", k, m)) }

/// The DoH server's side of one fetch
fn fetch(c: &mut Case, rng: &mut Rng, ls: &mut [Lookup], handed: &mut Vec<Vec<u8>>, m: &J) -> Result<String, Viol> {
	let (url, method) = (s(m, "url"), s(m, "method"));
	let (base, query) = url.split_once('?').unwrap_or((url, ""));
	let Some(l) = ls.iter_mut().find(|l| l.base == base) else { viol!("a request to {}, which nobody named", url) };
	let accept = m.get("headers").and_then(|h| h.get("accept")).and_then(|x| x.str()).unwrap_or("");
	ensure!(accept.split(',').any(|a| a.split(';').next().unwrap().trim().eq_ignore_ascii_case("application/dns-message")), "a request which accepts {:?}", accept);
	let msg = match method {
		"GET" => {
			let Some(b) = query.strip_prefix("dns=") else { viol!("a GET for {}", url) };
			ensure!(!b.contains('&'), "a GET for {}", url);
			b64url(b)?
		},
		"POST" => unhex(s(m, "body")),
		x => viol!("a {} request", x),
	};
	let Some(i) = handed.iter().position(|q| *q == msg) else { viol!("a query the bindings did not ask for, or not again: {} ({})", hex(&msg), url) };
	handed.remove(i);
	let (id, name, ty) = read_query(&msg).map_err(|e| format!("the query {}: {}", e, hex(&msg)))?;
	let Some(p) = l.plan.as_ref() else { viol!("a query ({} type {}) for the lookup of {:?} type {:?}", name, ty, l.domain, l.ty) };
	if l.asked.is_empty() { ensure!(name == p.name && ty == p.ty, "the lookup of {:?} type {:?} asks for {} type {} first", l.domain, l.ty, name, ty); }
	ensure!(!l.asked.contains(&(name.clone(), ty)), "{} type {} is asked for twice", name, ty);
	let Some(good) = p.msgs.get(&(name.clone(), ty)) else { viol!("asked for {} type {}, which no correct answer to {:?} calls for", name, ty, l.domain) };
	let mut good = good.clone();
	good[..2].copy_from_slice(&id.to_be_bytes());
	// long answers, up to the limit, by additional records nobody wants
	if rng.chance(1, 12) {
		let to = *rng.pick(&[4_000usize, 9_000, 20_000, 40_000, 65_000, 65_535]);
		while good.len() + 12 <= to {
			let n = (to - good.len() - 11).min(30_000);
			let n = if to - good.len() - 11 - n > 0 && to - good.len() - 11 - n < 12 { n - 12 } else { n };
			good.extend([0, 0, 16, 0, 1, 0, 0, 0, 5]);
			good.extend((n as u16).to_be_bytes());
			let mut left = n;
			while left > 0 { let k = (left - 1).min(255); good.push(k as u8); good.extend(rng.bytes(k)); left -= k + 1; }
			let ar = u16::from_be_bytes([good[10], good[11]]) + 1;
			good[10..12].copy_from_slice(&ar.to_be_bytes());
		}
		if good.len() > 32_768 { c.count("answers_over_32_KiB"); }
		if good.len() == 65_535 { c.count("answers_of_just_65535_bytes"); }
	}
	let k = l.asked.len();
	l.asked.push((name, ty));
	c.count("queries_answered");
	let (mut status, mut throws, mut breaks, mut kind) = (200u16, None, None, 0);
	if let Some((at, f)) = l.fault.as_ref() { if *at == k {
		l.faulted = true;
		match f {
			Fault::Status(x) => status = *x,
			Fault::Throw(as_, t) => { throws = Some(t.clone()); kind = *as_; },
			Fault::Breaks(t) => breaks = Some(t.clone()),
			Fault::Garbage(g) => good = garbage(rng, *g, &good),
			Fault::Oversized => { let n = *rng.pick(&[65536usize, 65537, 70_000, 131_072 + 40]); good.resize(n, 0); },
		}
	} } else if rng.chance(1, 20) { status = *rng.pick(&[203, 206, 299]); }
	let mut cuts = vec![0, good.len()];
	for _ in 0..rng.below(4) { cuts.push(rng.below(good.len() + 1)); }
	cuts.sort();
	let mut pieces: Vec<String> = cuts.windows(2).map(|w| format!("[{},{}]", w[0], w[1])).collect();
	if breaks.is_some() { pieces.pop(); }
	let opt = |t: &Option<String>| t.as_ref().map(|t| jstr(t)).unwrap_or("null".into());
	Ok(format!("{{\"turns\":{},\"status\":{},\"throws\":{},\"as\":{},\"breaks\":{},\"data\":\"{}\",\"pieces\":[{}]}}", rng.below(8), status, opt(&throws), kind, opt(&breaks), hex(&good), pieces.join(",")))
}

/// Runs lookups, all at once, and returns what each gave
fn run(c: &mut Case, rng: &mut Rng, ls: &mut Vec<Lookup>) -> Result<(Vec<(String, String)>, Vec<Vec<u8>>), Viol> {
	let mut node = match NODE.with(|n| n.borrow_mut().take()) { Some(n) => n, None => Node::start()? };
	node.write(&format!("{{\"lookups\":[{}]}}", ls.iter().map(|l| format!("{{\"domain\":{},\"ty\":{},\"endpoint\":{},\"after\":{}}}", jstr(&l.domain), jstr(&l.ty), jstr(&l.endpoint), l.after)).collect::<Vec<_>>().join(",")));
	let mut builders: BTreeMap<u64, WASMProofBuilder> = BTreeMap::new();
	// no two builders of one process share a number
	let mut next = NEXT.with(|n| *n.borrow());
	let mut handed = Vec::new();
	let mut proofs: Vec<Vec<u8>> = Vec::new();
	let opt = |d: Option<Vec<u8>>| format!("{{\"data\":{}}}", d.map(|d| format!("\"{}\"", hex(&d))).unwrap_or("null".into()));
	let mut steps = 0;
	loop {
		let m = node.read()?;
		steps += 1;
		if steps > 4000 { viol!("{} steps and no end", steps); }
		let b = m.get("b").and_then(|x| x.int()).unwrap_or(0);
		let reply = match s(&m, "op") {
			"new" => {
				let (n, t) = (s(&m, "name").to_string(), m.get("ty").and_then(|x| x.int()).unwrap() as u16);
				match guard("init_proof_builder", || init_proof_builder(n, t))? { None => "{\"b\":null}".into(), Some(x) => { next += 1; NEXT.with(|n| *n.borrow_mut() = next); builders.insert(next, x); format!("{{\"b\":{}}}", next) } }
			},
			"query" => { let q = guard("get_next_query", || get_next_query(builders.get_mut(&b).expect("a builder")))?; handed.extend(q.clone()); opt(q) },
			"response" => { let d = unhex(s(&m, "data")); guard("process_query_response", || process_query_response(builders.get_mut(&b).expect("a builder"), d))?; "{}".into() },
			"proof" => { let x = builders.remove(&b).expect("a builder"); let p = guard("get_unverified_proof", || get_unverified_proof(x))?; proofs.extend(p.clone()); opt(p) },
			"free" => { builders.remove(&b); "{}".into() },
			"verify" => { let d = unhex(s(&m, "data")); format!("{{\"text\":{}}}", jstr(&guard("verify_byte_stream", || verify_byte_stream(d))?)) },
			"fetch" => fetch(c, rng, ls, &mut handed, &m)?,
			"unhandled" => viol!("a rejection nobody handles: {:?}", m),
			"done" => {
				let r = m.get("results").and_then(|x| x.arr()).expect("results").iter().map(|r| (s(r, "type").to_string(), s(r, "text").to_string())).collect();
				NODE.with(|n| *n.borrow_mut() = Some(node));
				return Ok((r, proofs));
			},
			x => panic!("unknown request {}", x),
		};
		node.write(&reply);
	}
}

fn judge(c: &mut Case, l: &Lookup, r: &(String, String), proofs: &[Vec<u8>]) -> R {
	c.eval();
	let what = format!("the lookup of {:?} type {:?} at {:?}", l.domain, l.ty, l.endpoint);
	ensure!(r.0 != "never", "{} never ends", what);
	ensure!(r.0 == "string", "{} gives no text but ({}) {}", what, r.0, r.1);
	let j = json::parse(&r.1).map_err(|e| format!("{} gives text which is not JSON ({}): {}", what, e, r.1.chars().take(1500).collect::<String>()))?;
	let J::Obj(fields) = &j else { viol!("{} gives {}", what, r.1) };
	let error = j.get("error").map(|e| e.str().map(|e| !e.is_empty()));
	if let Some(p) = l.plan.as_ref() { c.nontrivial(fnv(format!("{:?} {} {} {} {:?}", l.fault, l.domain, l.ty, p.needed, l.asked.len()).as_bytes()) ^ c.rng.clone().next()); } else { c.nontrivial(fnv(format!("{}/{}", l.domain, l.ty).as_bytes())); }
	match l.want {
		Want::Records => {
			let p = l.plan.as_ref().unwrap();
			ensure!(error.is_none(), "{} fails although the resolver answers correctly: {}", what, r.1);
			// the proofs the bindings built for this name, and what the library says of them
			let mut v = None;
			let keys = ["valid_from", "expires", "max_cache_ttl"];
			let times: Vec<Option<u64>> = keys.iter().map(|k| j.get(k).and_then(|x| x.int())).collect();
			let mut seen = Vec::new();
			for b in proofs.iter() {
				let rrs = match guard("parse_rr_stream", || parse_rr_stream(b))? { Ok(r) => r, Err(()) => viol!("a proof does not parse: {}", hex(b)) };
				let mut recs: Vec<Rec> = rrs.iter().map(Rec::from_lib).collect();
				recs.sort();
				if recs != p.records() { continue; }
				match guard("verify_rr_stream", || verify_rr_stream(&rrs).map(|v| (vec![Some(v.valid_from), Some(v.expires), Some(v.max_cache_ttl as u64)], v.verified_rrs.iter().map(|r| Rec::from_lib(r)).collect::<BTreeSet<Rec>>())))? {
					Ok(x) => { if x.0 == times { v = Some(x); } else { seen.push(x.0); } },
					Err(e) => viol!("the proof for {} does not verify: {:?}", p.name, e),
				}
			}
			let Some((_, want)) = v else { viol!("{} gives {:?} {:?}, the proofs of just what the resolver said {:?}", what, keys, times, seen) };
			let Some(list) = j.get("verified_rrs").and_then(|x| x.arr()) else { viol!("{} gives no records: {}", what, r.1) };
			let mut got = Vec::new();
			for x in list { got.push(from_json(x).map_err(|e| format!("JSON does not denote a record ({}): {:?}", e, x))?); }
			let set: BTreeSet<Rec> = got.iter().cloned().collect();
			ensure!(set.len() == got.len() && set == want, "{} gives\n{}instead of\n{}", what, show(&got), show(&want.into_iter().collect::<Vec<_>>()));
			ensure!(p.expect.iter().all(|x| set.contains(x) || x.name != p.name || set.iter().any(|y| matches!(y.ty(), CNAME | DNAME))), "{} gives none of the records published", what);
			ensure!(l.asked.len() == p.needed, "{} asks {} queries instead of {}", what, l.asked.len(), p.needed);
			c.count("lookups_answered");
			c.add("records_returned", got.len() as u64);
			if c.idx < 3 { c.sample(|| format!("{}: {} queries, {}", what, l.asked.len(), r.1.chars().filter(|c| *c != '\n').take(200).collect::<String>())); }
		},
		Want::Error | Want::ErrorUnasked => {
			ensure!(error == Some(Some(true)) && fields.len() == 1, "{} does not give an error and nothing else ({:?}): {}", what, l.fault, r.1);
			if let Want::ErrorUnasked = l.want { ensure!(l.asked.is_empty(), "{} asks {} queries before it fails", what, l.asked.len()); }
			ensure!(l.asked.len() <= MAX_QUERIES, "{} asks {} queries", what, l.asked.len());
			c.count(&match &l.fault {
				Some((_, f)) if l.faulted => format!("failed as it should: {}", format!("{:?}", f).split('(').next().unwrap()),
				_ => if l.plan.is_some() { "failed as it should: unverifiable, too long or nowhere".to_string() } else { "failed as it should: refused".to_string() },
			});
		},
	}
	Ok(())
}

/// A few lookups at once, each at an address of its own
fn lookups(c: &mut Case, rng: &mut Rng, n: usize, foreign: bool) -> R {
	let deep = rng.chance(1, 4);
	let w = tree(rng, deep);
	// anchors of some other root
	let other = if foreign { let cfg = Cfg::fast(); Some(World::gen(rng, &cfg)) } else { None };
	set_anchors(other.as_ref().unwrap_or(&w).anchors());
	let foreign = other.map(|o| o.anchors() != w.anchors()).unwrap_or(false);
	let plans = some_plans(rng, &w, n);
	let mut ls: Vec<Lookup> = Vec::new();
	for i in 0..n {
		let base = format!("https://doh{}.example{}/{}", i, if rng.chance(1, 3) { ":8443" } else { "" }, *rng.pick(&["dns-query", "", "a/b", "resolve%22x"]));
		let mut l = Lookup { domain: String::new(), ty: String::new(), endpoint: base.clone(), base, after: rng.below(6), plan: None, fault: None, want: Want::ErrorUnasked, asked: vec![], faulted: false };
		let p = if plans.is_empty() { None } else { Some(plans[rng.below(plans.len())].clone()) };
		match (rng.below(10), p) {
			(0, p) => {
				// a type there is no support for, or a text that is no name
				let t: &str = if rng.chance(1, 2) { *rng.pick(&["", "16", "txtt", "tx", "\"txt\"", "any", "constructor", "\u{0}", "t\u{202e}xt", "__proto__", "aaaaa", "a ", " txt", "\n"]) } else { ty_name(*rng.pick(&[A, AAAA, TXT, TLSA])) };
				let good = matches!(t, "a" | "aaaa" | "txt" | "tlsa");
				l.ty = any_case(rng, t);
				l.domain = if good || rng.chance(1, 2) { let bad = ["", "..", "a..b", ".a", "a b", "\"", "a\\b\n.example.", "\u{e9}.example", "\u{0}", "x\"y..", "\u{1f600}"]; let i = rng.below(bad.len() + 2); if i < bad.len() { bad[i].to_string() } else if i == bad.len() { format!("{}.example.", "a".repeat(64)) } else { "a.".repeat(128) } }
					else { p.map(|p| p.name.text()).unwrap_or("example.".into()) };
				// some of these are names after all
				let full = if l.domain.ends_with('.') { l.domain.clone() } else { format!("{}.", l.domain) };
				if good && dnssec_prover::rr::Name::try_from(full.as_str()).is_ok() { continue; }
			},
			(1, Some(p)) => {
				// nowhere to ask
				l.endpoint = rng.pick(&["not a URL \"quoted\"", "", "http://", "https://[::\"\\]/", "//\n\"", "dns-query"]).to_string();
				l.base = "nowhere".into();
				l.domain = p.name.text(); l.ty = ty_name(p.ty).into(); l.plan = Some(p); l.want = Want::Error;
			},
			(k, Some(p)) => {
				l.domain = p.name.text();
				if l.domain.len() > 1 && rng.chance(1, 2) { l.domain.pop(); }
				if rng.chance(1, 2) { l.domain = any_case(rng, &l.domain); }
				l.ty = any_case(rng, ty_name(p.ty));
				// keys are drawn from a pool, so the other root's may be among this one's
				let rejected = foreign && { let b: Vec<u8> = p.records().iter().flat_map(|r| r.wire(77)).collect(); guard("verify_rr_stream", || parse_rr_stream(&b).map(|r| verify_rr_stream(&r).is_err()).unwrap_or(true))? };
				l.want = if p.needed > MAX_QUERIES || rejected { Want::Error } else { Want::Records };
				if k < 6 && !foreign {
					let f = match rng.below(8) {
						0 | 1 => Fault::Status(*rng.pick(&[400, 404, 413, 415, 429, 500, 502, 503, 300, 304])),
						2 | 3 => Fault::Throw(rng.below(4) as u8, text_of(rng)),
						4 => Fault::Breaks(text_of(rng)),
						5 => Fault::Oversized,
						_ => Fault::Garbage(rng.below(GARBAGE_KINDS as usize) as u8),
					};
					l.fault = Some((rng.below(p.needed.min(MAX_QUERIES)), f));
					l.want = Want::Error;
				}
				l.plan = Some(p);
			},
			_ => continue,
		}
		ls.push(l);
	}
	if ls.is_empty() { return Ok(()); }
	c.artifact("lookups", ls.iter().map(|l| format!("{:?} type {:?} at {:?}, fault {:?}, {} queries needed, wanted {:?}", l.domain, l.ty, l.endpoint, l.fault, l.plan.as_ref().map(|p| p.needed).unwrap_or(0), l.want)).collect::<Vec<_>>().join("\n"));
	let (got, proofs) = run(c, rng, &mut ls)?;
	if ls.len() > 1 { c.count("simultaneous_lookups"); }
	if foreign { c.count("lookups_below_a_foreign_root"); }
	for (l, r) in ls.iter().zip(got.iter()) { judge(c, l, r, &proofs)?; }
	Ok(())
}
fn single(c: &mut Case) -> R { let mut rng = c.rng.clone(); let f = rng.chance(1, 8); lookups(c, &mut rng, 1, f) }
fn several(c: &mut Case) -> R { let mut rng = c.rng.clone(); let n = rng.range(2, 6); lookups(c, &mut rng, n, false) }

pub fn check() -> Check {
	Check {
		id: "C22", rule: "Each case runs the lookup of doh_lookup.js in node, over the bindings in this process, against a mock DNS-over-HTTPS server of a generated signed DNS: one lookup, or up to six at once, with answers in \
			pieces and delayed, HTTP errors, failing connections with any error text, broken off, garbage or oversized answers, unusable names, types and addresses, and roots that are not trusted. Every request and every result is judged. \
			Each lookup is a distinct history.",
		phases: vec![Phase::new("single", 2_000, 100_000, single), Phase::new("several", 1_000, 50_000, several)],
		required: &["lookups_answered", "queries_answered", "simultaneous_lookups", "answers_over_32_KiB", "answers_of_just_65535_bytes", "lookups_below_a_foreign_root", "failed as it should: Status", "failed as it should: Throw", "failed as it should: Breaks", "failed as it should: Garbage",
			"failed as it should: Oversized", "failed as it should: refused", "failed as it should: unverifiable, too long or nowhere"],
		assumptions: &["Node runs the script in the browser's place, and the bindings are compiled natively; the WebAssembly glue is stood in for."], known: vec![],
	}
}
