//! Replays inputs (lines "s HEX" for streams, "m HEX" for resolver messages) under Miri: undef FILE SECONDS.
use std::panic::catch_unwind;
use dnssec_prover::query::{ProofBuilder, QueryBuf};
use dnssec_prover::rr::{Name, Record, RR};
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use dnssec_prover::validation::VerifiedRRStream;

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn stream(b: &[u8]) -> usize {
	let Ok(rrs) = parse_rr_stream(b) else { return 0 };
	let mut out = Vec::new();
	for rr in rrs.iter().take(6) {
		write_rr(rr, 7, &mut out);
		let _ = (rr.json().len(), Record::ty(rr), Record::name(rr).as_str().len());
		if let RR::DnsKey(k) = rr { k.key_tag(); }
		if let RR::NSec(n) = rr { for t in [0, 1, 46, 47, 255, 256, 32767, 32768, 65535] { n.types.contains_type(t); } }
		for o in rrs.iter().take(3) { let _ = (rr == o, rr.cmp(o), rr.partial_cmp(o)); }
		let n = Record::name(rr);
		for i in 0..=n.labels() + 1 { n.trailing_n_labels(i); }
	}
	// Verification itself goes through foreign code (ring), which Miri cannot run; what follows it can be.
	let all = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
	for rr in rrs.iter().take(2) { all.resolve_name(Record::name(rr)); }
	rrs.len()
}
fn message(b: &[u8]) -> usize {
	let n: Name = "start.example.".try_into().unwrap();
	let (mut pb, _) = ProofBuilder::new(&n, 16);
	let mut q = QueryBuf::new_zeroed(0);
	let k = b.len() / 2;
	q.extend_from_slice(&b[..k]);
	q.extend_from_slice(&b[k..]);
	let r = q.clone();
	assert!(r == q);
	let more = pb.process_response(&q).map(|v| v.len());
	let _ = pb.process_response(&r);
	pb.awaiting_responses();
	if let Ok((p, _)) = pb.finish_proof() { stream(&p); }
	more.map(|m| m + 1).unwrap_or(0)
}
fn main() {
	let a: Vec<String> = std::env::args().collect();
	let text = std::fs::read_to_string(&a[1]).unwrap();
	let secs: u64 = a[2].parse().unwrap();
	let t0 = std::time::Instant::now();
	let (mut n, mut some) = (0, 0);
	for l in text.lines() {
		if t0.elapsed().as_secs() > secs { break; }
		let b = unhex(&l[2..]);
		println!("at {}", l);
		let r = catch_unwind(|| if l.starts_with('s') { stream(&b) } else { message(&b) });
		match r { Ok(k) => { n += 1; if k > 0 { some += 1; } }, Err(_) => { println!("PANIC {}", l); std::process::exit(3); } }
	}
	println!("DONE {} {}", n, some);
}
