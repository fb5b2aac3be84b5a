//! C18: the HTTP server, as a process of its own, with many clients and a mock resolver.

use std::collections::BTreeSet;
use std::io::{ErrorKind, Read as _, Write as _};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::AsRawFd as _;
use std::os::unix::process::CommandExt as _;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::c_build::*;
use crate::c_query::MAX_QUERIES;
use crate::dns::*;
use crate::net::*;
use crate::util::*;
use crate::world::*;
use crate::viol;

/// As long as anybody waits for an answer
const PATIENCE: Duration = Duration::from_secs(40);

pub struct Server { child: Child, pub addr: SocketAddr, log: std::path::PathBuf }
impl Server {
	pub fn start(seed: u64, resolver: SocketAddr, workers: usize, fds: Option<u64>) -> Result<Server, Viol> {
		let bin = std::env::var("VH_SERVER").unwrap_or("/verif/target/srv/debug/http_proof_gen".into());
		let mut last = String::new();
		for i in 0..5u64 {
			// a free port, most likely
			let addr = { let l = loopback_listener(seed.wrapping_add(i)); l.local_addr().unwrap() };
			let log = std::env::temp_dir().join(format!("vh-http-{}-{:x}", std::process::id(), seed.wrapping_add(i)));
			let f = std::fs::File::create(&log).expect("log");
			let mut c = Command::new(&bin);
			c.env("RESOLVER", resolver.to_string()).env("BIND", addr.to_string()).env("TOKIO_WORKER_THREADS", workers.to_string()).env("RUST_BACKTRACE", "0")
				.stdin(Stdio::null()).stdout(Stdio::null()).stderr(f);
			unsafe {
				c.pre_exec(move || {
					libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
					if let Some(n) = fds { let l = libc::rlimit { rlim_cur: n, rlim_max: n }; libc::setrlimit(libc::RLIMIT_NOFILE, &l); }
					Ok(())
				});
			}
			let mut child = c.spawn().unwrap_or_else(|e| panic!("{}: {}", bin, e));
			let t0 = Instant::now();
			while t0.elapsed() < PATIENCE {
				if let Some(st) = child.try_wait().expect("wait") { last = format!("it ended with {}: {}", st, std::fs::read_to_string(&log).unwrap_or_default()); break; }
				if TcpStream::connect(addr).is_ok() { return Ok(Server { child, addr, log }); }
				last = "nothing accepts connections".into();
				std::thread::sleep(Duration::from_millis(2));
			}
			let _ = child.kill();
			let _ = child.wait();
			let _ = std::fs::remove_file(&log);
		}
		viol!("the server does not start: {}", last)
	}
	/// Still there, and nothing in it has panicked
	pub fn healthy(&mut self) -> R {
		if let Some(st) = self.child.try_wait().expect("wait") { viol!("the server ended with {}: {}", st, std::fs::read_to_string(&self.log).unwrap_or_default()); }
		let log = std::fs::read_to_string(&self.log).unwrap_or_default();
		if log.contains("panicked at") { viol!("the server panicked: {}", log); }
		Ok(())
	}
}
impl Drop for Server {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
		let _ = std::fs::remove_file(&self.log);
	}
}

#[derive(Clone, Debug, PartialEq)]
enum Expect {
	/// The proof of this plan
	Proof(usize),
	/// A 400 or 404
	Error,
	/// A 400 or 404, or nothing legible as the server need not read it all
	ErrorIfAny,
	/// A 400 or 404, or the proof of this plan
	Either(usize),
	/// As Either, or nothing legible
	EitherIfAny(usize),
	/// Nothing in particular; should there be something, it is a response
	Anything,
}
#[derive(Clone, Debug)]
enum How {
	/// All at once
	Whole,
	/// In pieces, up to this offset
	Pieces(usize),
	/// In pieces all the way
	AllPieces,
	/// Cut everywhere between the two characters of a line end, with time between for each part to be read on its own
	LineEnds,
	/// All, then close the sending side
	HalfClose,
	/// So many bytes, then close
	Leave(usize),
	/// So many bytes, then reset
	Reset(usize),
	/// So many bytes, then wait a while without a word, then close
	Linger(usize, u64),
}
#[derive(Clone, Debug)]
struct Req { kind: &'static str, bytes: Vec<u8>, expect: Expect, how: How }
#[derive(Debug)]
enum Got { Bytes(Vec<u8>, Option<ErrorKind>), NoConnect(String) }

fn reset(s: &TcpStream) {
	let l = libc::linger { l_onoff: 1, l_linger: 0 };
	unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as libc::socklen_t); }
}
fn perform(addr: SocketAddr, rng: &mut Rng, r: &Req) -> Got {
	let mut s = match TcpStream::connect_timeout(&addr, PATIENCE) { Ok(s) => s, Err(e) => return Got::NoConnect(e.to_string()) };
	let _ = s.set_nodelay(true);
	let _ = s.set_read_timeout(Some(PATIENCE));
	let _ = s.set_write_timeout(Some(PATIENCE));
	match &r.how {
		How::Whole => { let _ = s.write_all(&r.bytes); },
		How::Pieces(n) => { if write_pieces(&mut s, rng, &r.bytes[..*n], true, true).is_ok() { std::thread::sleep(Duration::from_micros(rng.range(0, 3000) as u64)); let _ = s.write_all(&r.bytes[*n..]); } },
		How::AllPieces => { let _ = write_pieces(&mut s, rng, &r.bytes, true, true); },
		How::LineEnds => {
			let mut at = 0;
			for i in 0..r.bytes.len() {
				if r.bytes[i] == b'\r' || i + 1 == r.bytes.len() {
					if s.write_all(&r.bytes[at..=i]).is_err() { break; }
					at = i + 1;
					std::thread::sleep(Duration::from_millis(rng.range(2, 12) as u64));
				}
			}
		},
		How::HalfClose => { let _ = s.write_all(&r.bytes); let _ = s.shutdown(Shutdown::Write); },
		How::Leave(n) => { let _ = s.write_all(&r.bytes[..*n]); return Got::Bytes(Vec::new(), None); },
		How::Reset(n) => { let _ = s.write_all(&r.bytes[..*n]); if rng.chance(1, 2) { std::thread::sleep(Duration::from_micros(rng.range(0, 2000) as u64)); } reset(&s); return Got::Bytes(Vec::new(), None); },
		How::Linger(n, ms) => { let _ = s.write_all(&r.bytes[..*n]); std::thread::sleep(Duration::from_millis(*ms)); return Got::Bytes(Vec::new(), None); },
	}
	let mut b = Vec::new();
	let mut tmp = [0u8; 8192];
	let t0 = Instant::now();
	loop {
		match s.read(&mut tmp) {
			Ok(0) => return Got::Bytes(b, None),
			Ok(n) => b.extend(&tmp[..n]),
			Err(e) if e.kind() == ErrorKind::Interrupted => {},
			Err(e) => return Got::Bytes(b, Some(e.kind())),
		}
		if t0.elapsed() > PATIENCE { return Got::Bytes(b, Some(ErrorKind::TimedOut)); }
	}
}

struct Resp { status: u16, body: Vec<u8>, ages: Vec<(String, u64)> }
/// Exactly one response, with nothing after it
fn read_response(b: &[u8]) -> Result<Resp, String> {
	let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("has no end of its header")?;
	let head = std::str::from_utf8(&b[..end]).map_err(|_| "has a header that is not text")?;
	let body = b[end + 4..].to_vec();
	let mut lines = head.split("\r\n");
	let st = lines.next().unwrap();
	let rest = st.strip_prefix("HTTP/1.1 ").or(st.strip_prefix("HTTP/1.0 ")).ok_or("has no status line")?;
	let code = rest.get(..3).filter(|c| c.bytes().all(|x| x.is_ascii_digit())).ok_or("has no status code")?;
	if rest.len() > 3 && !rest[3..].starts_with(' ') { return Err("has a strange status line".into()); }
	let (mut len, mut ages) = (None, Vec::new());
	for l in lines {
		let (k, v) = l.split_once(':').ok_or("has a header line without colon")?;
		if k.is_empty() || !k.bytes().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)) { return Err("has a bad header name".into()); }
		if l.bytes().any(|c| c < 32 && c != 9) { return Err("has control characters in its header".into()); }
		match k.to_ascii_lowercase().as_str() {
			"content-length" => { if len.is_some() { return Err("has two lengths".into()); } len = Some(v.trim().parse::<usize>().map_err(|_| "has a bad length")?); },
			"transfer-encoding" => return Err("is chunked".into()),
			"cache-control" => for d in v.split(',') { if let Some((k, v)) = d.trim().split_once('=') { ages.push((k.to_string(), v.parse().map_err(|_| "has a bad cache lifetime")?)); } },
			_ => {},
		}
	}
	let len = len.ok_or("has no length")?;
	if len != body.len() { return Err(format!("announces {} bytes and has {}", len, body.len())); }
	Ok(Resp { status: code.parse().unwrap(), body, ages })
}

fn plain(n: &Nm) -> bool { let t = n.text(); n.n() > 0 && t.bytes().all(|c| c.is_ascii_alphanumeric() || b"._-~!*".contains(&c)) }
fn ty_name(t: u16) -> &'static str { match t { A => "A", AAAA => "AAAA", TXT => "TXT", _ => "TLSA" } }
fn any_case(rng: &mut Rng, s: &str) -> String { let k = rng.below(3); s.chars().map(|c| match k { 0 => c, 1 => c.to_ascii_lowercase(), _ => if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } }).collect() }
fn headers(rng: &mut Rng) -> String {
	let mut s = String::new();
	for _ in 0..rng.below(5) {
		s += *rng.pick(&["Host: localhost:8080\r\n", "User-Agent: x/1.0 (y; z)\r\n", "Accept: */*\r\n", "Connection: close\r\n", "X-Empty:\r\n", "Accept-Encoding: gzip, br\r\n", "Referer: http://h/dnssecproof?d=other.&t=txt\r\n"]);
	}
	if rng.chance(1, 6) { s += &format!("X-Long: {}\r\n", "y".repeat(rng.range(1, 2500))); }
	s + "\r\n"
}
fn line(rng: &mut Rng, d: &str, t: &str, others: &[String]) -> String {
	let v = *rng.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]);
	let mut args = vec![format!("d={}", d), format!("t={}", t)];
	if rng.chance(1, 2) { args.reverse(); }
	// other parameters mean nothing, whatever they are called and hold
	if rng.chance(1, 3) {
		for _ in 0..rng.range(1, 3) {
			let k = *rng.pick(&["debug", "dd", "x", "type", "tt", "td", "dt", "domain", "id", "at", "name", "-", "cd", "d_", "t-"]);
			let v = rng.pick(&["", "1", "a.", "txt", "A", "other.example.", "MX", "."]).to_string();
			let v = if others.is_empty() || rng.chance(1, 2) { v } else { rng.pick(others).clone() };
			let i = rng.range(0, args.len());
			args.insert(i, format!("{}={}", k, v));
		}
	}
	format!("GET /dnssecproof?{} {}\r\n", args.join("&"), v)
}
/// A request that asks for a plan in a proper way
fn good(rng: &mut Rng, plans: &[Plan], i: usize) -> (String, String) {
	let p = &plans[i];
	let t = any_case(rng, ty_name(p.ty));
	let d = if rng.chance(1, 4) { any_case(rng, &p.name.text()) } else { p.name.text() };
	let others: Vec<String> = plans.iter().map(|p| p.name.text()).filter(|n| n.len() < 100).collect();
	(line(rng, &d, &t, &others), headers(rng))
}

fn request(rng: &mut Rng, plans: &[Plan], ok: &[bool], stalled: &[bool]) -> Req {
	let i = loop { let i = rng.below(plans.len()); if !stalled[i] { break i; } };
	let right = if ok[i] { Expect::Proof(i) } else { Expect::Error };
	let (l, h) = good(rng, plans, i);
	let whole = format!("{}{}", l, h).into_bytes();
	let n = whole.len();
	match rng.below(24) {
		0..=5 => Req { kind: "whole", bytes: whole, expect: right, how: How::Whole },
		6..=8 => { let k = rng.range(1, l.len() - 1); Req { kind: "line in pieces", bytes: whole, expect: right, how: How::Pieces(k) } },
		9 if rng.chance(1, 2) => Req { kind: "split within all line ends", bytes: whole, expect: right, how: How::LineEnds },
		9 => { let k = l.len() - 1; Req { kind: "split within the line end", bytes: whole, expect: right, how: How::Pieces(k) } },
		10 => Req { kind: "half-closed", bytes: whole, expect: right, how: How::HalfClose },
		11 => Req { kind: "all in pieces", bytes: whole, expect: right, how: How::AllPieces },
		12 => { let h = format!("X: {}\r\n\r\n", "z".repeat(rng.range(4000, 20_000))); Req { kind: "huge header", bytes: (l + &h).into_bytes(), expect: Expect::EitherIfAny(i), how: How::Whole } },
		13 => Req { kind: "left", bytes: whole, expect: Expect::Anything, how: How::Leave(rng.below(n + 1)) },
		14 => Req { kind: "reset", bytes: whole, expect: Expect::Anything, how: How::Reset(if rng.chance(1, 2) { n } else { rng.below(n + 1) }) },
		15 => Req { kind: "silent", bytes: whole, expect: Expect::Anything, how: How::Linger(rng.below(l.len() - 1), rng.range(1, 120) as u64) },
		16 => {
			// too long for any line
			let n = *rng.pick(&[4096, 4096, 4097, 5000, 9000, 100_000]);
			let mut b = format!("GET /dnssecproof?d={}&t=txt&x=", plans[i].name.text()).into_bytes();
			while b.len() < n { b.push(b'x'); }
			Req { kind: "no end of line", bytes: b, expect: if n == 4096 { Expect::Error } else { Expect::ErrorIfAny }, how: How::Whole }
		},
		17 => {
			let n = *rng.pick(&[4000, 4094, 4095, 4096]);
			let mut b = format!("GET /dnssecproof?d={}&t={}&x=", plans[i].name.text(), ty_name(plans[i].ty)).into_bytes();
			while b.len() < n - 11 { b.push(b'x'); }
			b.extend(b" HTTP/1.1\r\n");
			Req { kind: "longest line", bytes: b, expect: if ok[i] { Expect::Either(i) } else { Expect::Error }, how: How::Whole }
		},
		18 if stalled.iter().any(|s| *s) => {
			let i = loop { let i = rng.below(plans.len()); if stalled[i] { break i; } };
			let (l, h) = good(rng, plans, i);
			let b = (l + &h).into_bytes();
			Req { kind: "resolver stalls", expect: Expect::Anything, how: How::Linger(b.len(), rng.range(1, 300) as u64), bytes: b }
		},
		_ => {
			let p = &plans[i];
			let (d, t) = (p.name.text(), ty_name(p.ty).to_string());
			let v = " HTTP/1.1\r\n";
			let k = rng.below(30);
			let b: Vec<u8> = match k {
				0 => format!("POST /dnssecproof?d={}&t={}{}Content-Length: 3\r\n\r\nabc", d, t, v).into(),
				1 => format!("HEAD /dnssecproof?d={}&t={}{}\r\n", d, t, v).into(),
				2 => format!("get /dnssecproof?d={}&t={}{}\r\n", d, t, v).into(),
				3 => format!("GET /?d={}&t={}{}\r\n", d, t, v).into(),
				4 => format!("GET /dnssecproof{}\r\n", v).into(),
				5 => format!("GET /dnssecproof?{}\r\n", v).into(),
				6 => format!("GET /dnssecproof?d={}{}\r\n", d, v).into(),
				7 => format!("GET /dnssecproof?t={}{}\r\n", t, v).into(),
				8 => format!("GET /dnssecproof?d=&t={}{}\r\n", t, v).into(),
				9 => format!("GET /dnssecproof?d={}&t={}\r\n", d, v).into(),
				10 => format!("GET /dnssecproof?d={}&t={}{}\r\n", d, rng.pick(&["MX", "ANY", "16", "TXTT", "TX", "DNSKEY", "A,AAAA", "CNAME"]), v).into(),
				11 => format!("GET /dnssecproof?d={}&t={}{}\r\n", d.trim_end_matches('.').to_string() + "x", t, v).into(), // no final dot
				12 => format!("GET /dnssecproof?d={}.{}&t={}{}\r\n", "l".repeat(64), d, t, v).into(),
				13 => format!("GET /dnssecproof?d=a..{}&t={}{}\r\n", d, t, v).into(),
				14 => format!("GET /dnssecproof?d={}{}&t={}{}\r\n", "ab.".repeat(90), d, t, v).into(),
				15 => format!("GET /dnssecproof?d={}&t={} HTTP/2.0\r\n\r\n", d, t).into(),
				16 => format!("GET /dnssecproof?d={}&t={}\r\n\r\n", d, t).into(),
				17 => format!("GET /dnssecproof?d={}&t={} HTTP/1.1 x\r\n\r\n", d, t).into(),
				18 => format!("GET  /dnssecproof?d={}&t={}{}\r\n", d, t, v).into(),
				19 => format!("GET /dnssecproof?d={}&t={}&x{}\r\n", d, t, v).into(),
				20 => { let mut b = format!("GET /dnssecproof?d=").into_bytes(); b.extend([0xff, 0xfe, b'a', b'.']); b.extend(format!("&t={}{}\r\n", t, v).bytes()); b },
				21 => { let n = rng.range(0, 300); let mut b = rng.bytes(n); b.extend(b"\r\n"); b },
				22 => b"\r\n".to_vec(),
				23 => b" \r\n".to_vec(),
				24 => b"GET\r\n".to_vec(),
				25 => format!("GET http://h/dnssecproof?d={}&t={}{}\r\n", d, t, v).into(),
				26 => { let n = rng.range(1, 60); let f = rng.bytes(n); let mut b = b"GET /dnssecproof?".to_vec(); b.extend(f.iter().filter(|c| **c != b'\r' && **c != b'\n')); b.extend(v.bytes()); b.extend(b"\r\n"); b },
				27 => format!("GET /dnssecproof?d=nothing-{}.here.&t={}{}\r\n", rng.below(99), t, v).into(),
				28 => "GET /dnssecproof?d=é.&t=txt HTTP/1.1\r\n\r\n".into(),
				_ => format!("GET /dnssecproof?d={}\u{0}&t={}{}\r\n", d, t, v).into(),
			};
			let first = b.windows(2).position(|w| w == b"\r\n").unwrap();
			let how = if first > 1 && rng.chance(1, 3) { How::Pieces(rng.range(1, first)) } else { How::Whole };
			// An absolute form, an empty line first or a percent sign can be read in more than one way
			let expect = if k == 25 || k == 26 || k == 22 { Expect::Anything } else { Expect::Error };
			Req { kind: "malformed", bytes: b, expect, how }
		},
	}
}

fn judge(c: &mut Case, w: &World, plans: &[Plan], r: &Req, g: &Got) -> R {
	c.eval();
	c.nontrivial(fnv(&r.bytes) ^ fnv(format!("{:?}", r.how).as_bytes()));
	let (b, err) = match g { Got::Bytes(b, e) => (b, e), Got::NoConnect(e) => viol!("a connection could not be made ({}): {:?}", e, txt(r)) };
	let legible_needed = matches!(r.expect, Expect::Proof(_) | Expect::Error | Expect::Either(_));
	if b.is_empty() && !legible_needed { c.count(&format!("not answered: {}", r.kind)); return Ok(()); }
	if b.is_empty() { viol!("no response ({:?}) to {}", err, txt(r)); }
	let resp = match read_response(b) {
		Ok(x) => x,
		Err(_) if err.is_some() && !legible_needed => { c.count(&format!("cut short: {}", r.kind)); return Ok(()); },
		Err(e) => viol!("the response {} ({:?}): {} to {}", e, err, String::from_utf8_lossy(b), txt(r)),
	};
	c.count(&format!("answered {}: {}", resp.status, r.kind));
	let plan = match r.expect { Expect::Proof(i) | Expect::Either(i) | Expect::EitherIfAny(i) => Some(i), _ => None };
	match resp.status {
		200 => {
			let Some(i) = plan else { if r.expect == Expect::Anything { return Ok(()); } viol!("a proof for {}", txt(r)) };
			let p = &plans[i];
			let ages: BTreeSet<u64> = resp.ages.iter().map(|x| x.1).collect();
			if !resp.ages.iter().any(|x| x.0 == "max-age") || ages.len() != 1 { viol!("strange cache lifetimes {:?} for {}", resp.ages, txt(r)); }
			judge_proof(c, w, p, &resp.body, *ages.iter().next().unwrap() as u32, "HTTP")?;
		},
		400 | 404 => { if let Expect::Proof(_) = r.expect { viol!("{} ({}) for {}", resp.status, String::from_utf8_lossy(&resp.body), txt(r)); } },
		s => viol!("status {} for {}", s, txt(r)),
	}
	Ok(())
}
fn txt(r: &Req) -> String { format!("[{}, {:?}] {:?}", r.kind, r.how, String::from_utf8_lossy(&r.bytes).chars().take(400).collect::<String>()) }

fn setup(c: &mut Case, rng: &mut Rng, stall: bool) -> (World, Vec<Plan>, Vec<bool>, Vec<bool>, Script) {
	let deep = rng.chance(1, 3);
	let mut said = Said::new();
	let (w, plans) = loop {
		let w = tree(rng, deep);
		let mut plans: Vec<Plan> = Vec::new();
		let names: BTreeSet<(Nm, u16)> = w.zones.iter().flat_map(|z| z.sets.keys().map(|k| k.0.clone())).filter(|n| !n.is_wild()).flat_map(|n| [A, AAAA, TXT, TLSA].map(|t| (n.clone(), t))).collect();
		said.clear();
		for (n, t) in names {
			if plain(&n) && plans.len() < 24 { if let Some(p) = plan_shared(&w, rng, &n, t, &mut said) { plans.push(p); } }
		}
		if plans.len() >= 3 { break (w, plans); }
	};
	let mut script = Script { fragment: 20, reorder: 30, pause: 10, ..Default::default() };
	for (k, v) in said { script.answers.insert(k, v.1); }
	let mut ok: Vec<bool> = plans.iter().map(|p| p.needed <= MAX_QUERIES).collect();
	let mut stalled = vec![false; plans.len()];
	for i in 1..plans.len() {
		if rng.chance(1, 5) {
			let k = rng.below(plans[i].needed.min(MAX_QUERIES));
			let f = match rng.below(if stall { 6 } else { 4 }) { 0 => Fault::Close(k), 1 => Fault::Partial(k), 2 => Fault::Garbage(k, rng.below(GARBAGE_KINDS as usize) as u8), 3 => Fault::Endless(rng.range(1, 9) as u8), _ => { stalled[i] = true; Fault::Stall(k) } };
			script.faults.insert((plans[i].name.clone(), plans[i].ty), f);
			ok[i] = false;
		}
	}
	c.artifact("plans", plans.iter().enumerate().map(|(i, p)| format!("{} type {} needs {} lifetime {}: {:?}\n", p.name, p.ty, p.needed, p.min_ttl, script.faults.get(&(plans[i].name.clone(), plans[i].ty)))).collect::<String>());
	(w, plans, ok, stalled, script)
}

pub fn c18_mixed(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let (w, plans, ok, stalled, script) = setup(c, &mut rng, true);
	let mut res = Resolver::start(rng.next(), script);
	let workers = *rng.pick(&[1, 1, 2, 4, 8]);
	let mut srv = Server::start(rng.next(), res.addr, workers, None)?;
	c.count(&format!("servers with {} worker threads", workers));
	for _round in 0..2 {
		let n = *rng.pick(&[1, 3, 8, 16, 24]);
		let jobs: Vec<(Vec<Req>, Rng)> = (0..n).map(|i| { let k = rng.range(1, 60 / n + 3); ((0..k).map(|_| request(&mut rng, &plans, &ok, &stalled)).collect(), Rng::new(rng.next(), "client", i as u64)) }).collect();
		// some connections that say nothing all the while
		let idle: Vec<TcpStream> = (0..rng.below(6)).filter_map(|_| TcpStream::connect(srv.addr).ok()).collect();
		let addr = srv.addr;
		let got: Vec<(Req, Got)> = std::thread::scope(|s| {
			let hs: Vec<_> = jobs.into_iter().map(|(reqs, mut rng)| s.spawn(move || reqs.into_iter().map(|r| { let g = perform(addr, &mut rng, &r); (r, g) }).collect::<Vec<_>>())).collect();
			hs.into_iter().flat_map(|h| h.join().expect("client")).collect()
		});
		drop(idle);
		srv.healthy()?;
		for (r, g) in got.iter() { judge(c, &w, &plans, r, g)?; }
		c.count(&format!("rounds with {:02} clients at once", n));
	}
	// and still at work
	let (l, h) = good(&mut rng, &plans, 0);
	let r = Req { kind: "afterwards", bytes: (l + &h).into_bytes(), expect: if ok[0] { Expect::Proof(0) } else { Expect::Error }, how: How::Whole };
	let g = perform(srv.addr, &mut rng, &r);
	judge(c, &w, &plans, &r, &g)?;
	srv.healthy()?;
	drop(srv);
	res.stop();
	absorb(c, &res)?;
	Ok(())
}

/// More connections than the server has file descriptors, then as many as before
fn c18_exhausted(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let (w, plans, ok, _, script) = setup(c, &mut rng, false);
	let mut res = Resolver::start(rng.next(), script);
	let fds = rng.range(12, 40) as u64;
	let mut srv = Server::start(rng.next(), res.addr, *rng.pick(&[1, 2, 4]), Some(fds))?;
	for _ in 0..rng.range(1, 3) {
		let mut held: Vec<TcpStream> = Vec::new();
		for _ in 0..fds + rng.range(5, 30) as u64 { if let Ok(s) = TcpStream::connect_timeout(&srv.addr, Duration::from_secs(5)) { held.push(s); } }
		std::thread::sleep(Duration::from_millis(rng.range(5, 60) as u64));
		srv.healthy()?;
		if rng.chance(1, 2) { for s in held.iter() { reset(s); } }
		drop(held);
		c.count("times_out_of_descriptors");
		for _ in 0..3 {
			let i = rng.below(plans.len());
			let (l, h) = good(&mut rng, &plans, i);
			// the descriptors of the others may not all be free again yet when the first request comes, so that there is none left for the resolver
			let t0 = Instant::now();
			loop {
				let r = Req { kind: "after exhaustion", bytes: (l.clone() + &h).into_bytes(), expect: if ok[i] { Expect::Proof(i) } else { Expect::Error }, how: How::Whole };
				let g = perform(srv.addr, &mut rng, &r);
				match judge(c, &w, &plans, &r, &g) { Ok(()) => break, Err(e) => { srv.healthy()?; if t0.elapsed() > Duration::from_secs(10) { return Err(e); } } }
				std::thread::sleep(Duration::from_millis(10));
			}
		}
	}
	srv.healthy()?;
	drop(srv);
	res.stop();
	absorb(c, &res)?;
	Ok(())
}
/// The resolver goes away and comes back
fn c18_resolver(c: &mut Case) -> R {
	let mut rng = c.rng.clone();
	let (w, plans, ok, _, script) = setup(c, &mut rng, false);
	let addr = { let l = loopback_listener(rng.next()); l.local_addr().unwrap() };
	let mut srv = Server::start(rng.next(), addr, *rng.pick(&[1, 2, 4]), None)?;
	for _ in 0..rng.range(1, 3) {
		for up in [false, true] {
			let res = if up { match Resolver::start_at(addr, rng.next(), script.clone()) { Some(r) => Some(r), None => return Ok(()) } } else { None };
			for _ in 0..3 {
				let i = rng.below(plans.len());
				let (l, h) = good(&mut rng, &plans, i);
				let r = Req { kind: if up { "resolver back" } else { "resolver away" }, bytes: (l + &h).into_bytes(), expect: if up && ok[i] { Expect::Proof(i) } else { Expect::Error }, how: How::Whole };
				let g = perform(srv.addr, &mut rng, &r);
				judge(c, &w, &plans, &r, &g)?;
			}
			if let Some(mut r) = res { r.stop(); absorb(c, &r)?; }
		}
	}
	srv.healthy()?;
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C18", rule: "Each case starts the server as a process of its own (1 to 8 worker threads) with a mock resolver that knows up to 24 names (some failing, stalling or needing too many queries) and \
			runs up to 24 clients against it at once: proper requests whole, cut at any point or half-closed; malformed, oversized, incomplete, abandoned and reset ones; silent connections. \
			Further cases exhaust its file descriptors, or take the resolver away and back. Every byte a client receives is read by a strict response reader, and every proof compared with what the resolver said. \
			Every request with its manner of sending is distinct.",
		phases: vec![Phase::new("mixed", 120, 4000, c18_mixed), Phase::new("exhausted", 40, 800, c18_exhausted), Phase::new("resolver", 40, 800, c18_resolver)],
		required: &["proofs_over_64_kib", "names_with_many_records", "proofs_verified", "answered 200: whole", "answered 404: whole", "answered 200: line in pieces", "answered 200: split within the line end", "answered 200: split within all line ends", "answered 200: half-closed", "answered 400: malformed",
			"answered 404: malformed", "answered 400: no end of line", "times_out_of_descriptors", "answered 404: resolver away", "answered 200: resolver back", "answered 200: after exhaustion", "not answered: reset"],
		assumptions: &["A client that sends more than the server takes (4096 bytes) may lose its answer to a connection reset; such connections are judged only as far as an answer arrives.",
			"Requests that can be read in more than one way (repeated parameters, percent signs, absolute form) are judged only for a well-formed response."],
		known: vec![],
	}]
}
