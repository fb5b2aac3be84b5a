//! Says everything the library does with an input. Built in several configurations, which must all say the same.
//! One command per line, one answer per line: what needs no validation, a tab, and what does.
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use dnssec_prover::query::{ProofBuilder, QueryBuf};
use dnssec_prover::rr::{Name, Record, RR};
use dnssec_prover::ser::{parse_rr_stream, write_rr};

fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b { let _ = write!(s, "{:02x}", x); } s }
fn unhex(l: &str) -> Vec<u8> { (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn buf(b: &[u8]) -> QueryBuf { let mut q = QueryBuf::new_zeroed(b.len() as u16); q.copy_from_slice(b); q }

fn name(t: &str) -> String {
	match Name::try_from(t) {
		Err(()) => "bad".into(),
		Ok(n) => {
			let mut o = format!("{:?} {} {}", n.as_str(), n.labels(), n);
			for k in 0..=n.labels() { let _ = write!(o, " {:?}", n.trailing_n_labels(k)); }
			o
		},
	}
}
fn stream(b: &[u8]) -> (String, String) {
	let rrs = match parse_rr_stream(b) { Ok(r) => r, Err(()) => return ("unparsable".into(), "unparsable".into()) };
	let mut o = String::new();
	for r in rrs.iter() {
		let mut w = Vec::new();
		write_rr(r, 77, &mut w);
		let _ = write!(o, "{} {} {} {:?} ", Record::ty(r), Record::name(r).as_str(), hex(&w), r.json());
		match r { RR::DnsKey(k) => { let _ = write!(o, "tag {} ", k.key_tag()); }, RR::NSec(n) => { let _ = write!(o, "types {} ", (0..=65535u16).filter(|t| n.types.contains_type(*t)).count()); }, _ => {} }
	}
	let mut i: Vec<usize> = (0..rrs.len()).collect();
	i.sort_by(|a, b| rrs[*a].cmp(&rrs[*b]));
	let _ = write!(o, "{:?}", i);
	(o, verify(&rrs))
}
#[cfg(not(feature = "validation"))]
fn verify(_: &[RR]) -> String { String::new() }
#[cfg(feature = "validation")]
fn verify(rrs: &[RR]) -> String {
	match dnssec_prover::validation::verify_rr_stream(rrs) {
		Err(e) => format!("{:?}", e),
		Ok(v) => {
			let mut o = format!("{} {} {}", v.valid_from, v.expires, v.max_cache_ttl);
			let mut l: Vec<String> = v.verified_rrs.iter().map(|r| r.json()).collect();
			l.sort();
			let _ = write!(o, " {:?}", l);
			for r in rrs.iter() {
				let mut l: Vec<String> = v.resolve_name(r.name()).iter().map(|r| r.json()).collect();
				l.sort();
				let _ = write!(o, " {} {:?}", r.name().as_str(), l);
			}
			o
		},
	}
}
fn build<'a>(n: &str, ty: u16, msgs: impl Iterator<Item = &'a str>) -> String {
	let n = match Name::try_from(n) { Ok(n) => n, Err(()) => return "bad name".into() };
	let (mut b, q) = ProofBuilder::new(&n, ty);
	let q = q.into_vec();
	let id = [q[0], q[1]];
	let mut o = hex(&q[2..]);
	for m in msgs {
		let mut m = unhex(m);
		if m.len() >= 2 && m[..2] == [0, 0] { m[..2].copy_from_slice(&id); }
		let _ = write!(o, " {}", b.awaiting_responses());
		match b.process_response(&buf(&m)) {
			Err(()) => o += " refused",
			Ok(v) => { let mut l: Vec<String> = v.into_iter().map(|q| hex(&q.into_vec()[2..])).collect(); l.sort(); let _ = write!(o, " {:?}", l); },
		}
	}
	let _ = write!(o, " {}", b.awaiting_responses());
	match b.finish_proof() { Ok((p, ttl)) => { let _ = write!(o, " {} {}", hex(&p), ttl); }, Err(()) => o += " none" }
	o
}
fn buffer<'a>(n: usize, pieces: impl Iterator<Item = &'a str>) -> String {
	let mut q = QueryBuf::new_zeroed(n as u16);
	let mut o = String::new();
	for p in pieces {
		let before = q.clone();
		q.extend_from_slice(&unhex(p));
		let _ = write!(o, "{} {} ", q.len(), before == q);
	}
	o + &hex(&q.into_vec())
}
fn anchors(b: &[u8]) {
	#[cfg(feature = "validation")]
	dnssec_prover::verif_hooks::set_root_anchors(Some(parse_rr_stream(b).unwrap().into_iter().map(|r| if let RR::DS(d) = r { d } else { panic!() }).collect()));
	let _ = b;
}
fn answer(l: &str) -> (String, String) {
	let mut f = l.split(' ');
	let text = |x: Option<&str>| String::from_utf8(unhex(x.unwrap())).unwrap();
	match f.next().unwrap() {
		"A" => { anchors(&unhex(f.next().unwrap())); ("anchors".into(), String::new()) },
		"S" => stream(&unhex(f.next().unwrap_or(""))),
		"N" => (name(&text(f.next())), String::new()),
		"B" => { let n = text(f.next()); let ty = f.next().unwrap().parse().unwrap(); (build(&n, ty, f), String::new()) },
		"Q" => { let n = f.next().unwrap().parse().unwrap(); (buffer(n, f), String::new()) },
		x => panic!("command {}", x),
	}
}
/// Ends this process if one command takes more than a minute of its CPU time
static COMMANDS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn watch() {
	let ticks = || -> u64 { let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default(); s.rsplit(')').next().unwrap_or("").split(' ').skip(12).take(2).filter_map(|x| x.parse::<u64>().ok()).sum() };
	std::thread::spawn(move || {
		let (mut n, mut since) = (0, 0);
		loop {
			std::thread::sleep(std::time::Duration::from_secs(1));
			let now = COMMANDS.load(std::sync::atomic::Ordering::Relaxed);
			if now != n { n = now; since = ticks(); } else if ticks() - since > 6000 { std::process::exit(9); }
		}
	});
}
fn main() {
	watch();
	std::panic::set_hook(Box::new(|_| {}));
	let mut out = std::io::BufWriter::new(std::io::stdout());
	for l in std::io::stdin().lock().lines() {
		let l = l.unwrap();
		COMMANDS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
		let a = catch_unwind(AssertUnwindSafe(|| answer(&l))).unwrap_or_else(|e| {
			let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
			(format!("PANIC {}", t), "PANIC".into())
		});
		writeln!(out, "{}\t{}", a.0.replace(['\n', '\t'], " "), a.1.replace(['\n', '\t'], " ")).unwrap();
		out.flush().unwrap();
	}
}
