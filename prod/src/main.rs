//! A production build of the library, driven over pipes: "H" prints the trust anchors, a stream in hex what it proves.
use std::io::{BufRead, Write};

use dnssec_prover::rr::RR;
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use dnssec_prover::validation::{root_hints, verify_rr_stream};

fn hex(b: &[u8]) -> String { b.iter().map(|b| format!("{:02x}", b)).collect() }
fn main() {
	let out = std::io::stdout();
	for l in std::io::stdin().lock().lines() {
		let l = l.unwrap();
		let answer = if l == "H" {
			let v: Vec<String> = root_hints().iter().map(|d| format!("{}/{}/{}/{}/{}", d.name.as_str(), d.key_tag, d.alg, d.digest_type, hex(&d.digest))).collect();
			format!("H {}", v.join(" "))
		} else {
			let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
			match parse_rr_stream(&b) {
				Err(()) => "P".to_string(),
				Ok(rrs) => match verify_rr_stream(&rrs) {
					Err(e) => format!("E {:?}", e),
					Ok(v) => {
						let mut o = Vec::new();
						for r in v.verified_rrs { match r { RR::A(x) => write_rr(x, 0, &mut o), RR::AAAA(x) => write_rr(x, 0, &mut o), RR::NS(x) => write_rr(x, 0, &mut o), RR::Txt(x) => write_rr(x, 0, &mut o),
							RR::TLSA(x) => write_rr(x, 0, &mut o), RR::CName(x) => write_rr(x, 0, &mut o), RR::DName(x) => write_rr(x, 0, &mut o), x => write_rr(x, 0, &mut o) } }
						format!("V {} {} {} {}", v.valid_from, v.expires, v.max_cache_ttl, hex(&o))
					},
				},
			}
		};
		let mut o = out.lock();
		writeln!(o, "{}", answer).unwrap();
		o.flush().unwrap();
	}
}
