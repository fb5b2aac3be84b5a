//! A mock recursive resolver on the loopback interface, answering from a synthetic signed DNS, with faults.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{ErrorKind, Read as _, Write as _};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::c_query::*;
use crate::dns::*;
use crate::util::*;
use crate::world::*;

/// Everything a correct resolver says while a proof is built
#[derive(Clone)]
pub struct Plan {
	pub name: Nm,
	pub ty: u16,
	/// The number of queries it takes
	pub needed: usize,
	pub kept: BTreeMap<(Nm, u16), Vec<(Rec, u32)>>,
	pub msgs: BTreeMap<(Nm, u16), Vec<u8>>,
	/// The records published under the name in the end
	pub expect: BTreeSet<Rec>,
	pub min_ttl: u32,
}
impl Plan {
	pub fn records(&self) -> Vec<Rec> { let mut v: Vec<Rec> = self.kept.values().flatten().map(|x| x.0.clone()).collect(); v.sort(); v }
}

fn set_items(s: &Set, at: &Nm, ttl: u32) -> Vec<Item> { s.recs_at(at).into_iter().map(|r| item(r, ttl)).collect() }

/// The message for one question: what is in it, and what of it a proof takes over
pub fn respond(w: &World, rng: &mut Rng, name: &Nm, ty: u16, a: Option<&Answer>) -> Option<Msg> {
	let mut m = Msg::new(name, ty);
	let ttl = |rng: &mut Rng| if rng.chance(1, 30) { *rng.pick(&[0u32, 1, 604800, 0x7fff_ffff]) } else { rng.range(1, 90_000) as u32 };
	match ty {
		DNSKEY => { let z = w.zone_at(name)?; let t = ttl(rng); m.sections[0] = set_items(&w.set(z, name, DNSKEY), name, t); },
		DS => { let z = w.zone_at(name)?; let p = w.zones[z].parent?; let t = ttl(rng); m.sections[0] = set_items(&w.set(p, name, DS), name, t); },
		_ => {
			let a = a?;
			for u in a.uses.iter() {
				let t = ttl(rng);
				let at = m.sections[0].len();
				let items = set_items(&u.set, &u.at, t);
				if rng.chance(1, 8) { for i in items { m.sections[0].insert(at.min(m.sections[0].len()), i); } } else { m.sections[0].extend(items); }
				for d in u.denial.iter() { let t = ttl(rng); let o = d.owner.clone(); m.sections[1].extend(set_items(d, &o, t)); }
			}
			for s in a.synth.iter() { let t = ttl(rng); m.sections[0].push(item(s.clone(), t)); }
		},
	}
	// the same set twice in one denial section says the same twice
	let mut seen = BTreeSet::new();
	m.sections[1].retain(|i| seen.insert(i.rec.clone()));
	// what resolvers add
	if rng.chance(1, 3) {
		let z = w.zone_of(name);
		let apex = w.zones[z].apex.clone();
		if w.zones[z].sets.contains_key(&(apex.clone(), NS)) { let t = ttl(rng); m.sections[1].extend(set_items(&w.set(z, &apex, NS), &apex, t)); }
	}
	if rng.chance(1, 3) { m.sections[2].push(item(Rec::new(&Nm::new("ns.example."), RD::A([127, 0, 0, 1])), 1)); }
	if rng.chance(1, 6) { for s in m.sections.iter_mut() { rng.shuffle(s); } }
	for f in [0x0400u16, 0x0010] { if rng.chance(1, 8) { m.flags ^= f; } }
	Some(m)
}

/// None: the name is not there
pub fn plan(w: &World, rng: &mut Rng, name: &Nm, ty: u16) -> Option<Plan> { plan_shared(w, rng, name, ty, &mut BTreeMap::new()) }
pub type Said = BTreeMap<(Nm, u16), (Vec<(Rec, u32)>, Vec<u8>)>;
/// As plan, but consistent with what the resolver has said before
pub fn plan_shared(w: &World, rng: &mut Rng, name: &Nm, ty: u16, said: &mut Said) -> Option<Plan> {
	let a = w.answer(name, ty)?;
	if !crate::c_chain::usable(&a) { return None; }
	let mut p = Plan { name: name.clone(), ty, needed: 0, kept: BTreeMap::new(), msgs: BTreeMap::new(), expect: BTreeSet::new(), min_ttl: u32::MAX };
	let mut todo = vec![(name.clone(), ty)];
	while let Some((n, t)) = todo.pop() {
		if p.msgs.contains_key(&(n.clone(), t)) { continue; }
		if !said.contains_key(&(n.clone(), t)) {
			let m = respond(w, rng, &n, t, Some(&a))?;
			let comp = *rng.pick(&[Comp::No, Comp::Std, Comp::Std]);
			let b = encode(rng, &m, comp);
			if b.len() > 65535 { return None; }
			let kept: Vec<(Rec, u32)> = m.sections[0].iter().map(|i| (i.rec.clone(), i.ttl)).chain(m.sections[1].iter()
				.filter(|i| match &i.rec.rd { RD::NSec { .. } | RD::NSec3 { .. } => true, RD::RRSig(s) => s.ty == NSEC || s.ty == NSEC3, _ => false })
				.map(|i| (i.rec.clone(), i.ttl))).collect();
			said.insert((n.clone(), t), (kept, b));
		}
		let (kept, b) = said[&(n.clone(), t)].clone();
		for (r, ttl) in kept.iter() {
			p.min_ttl = p.min_ttl.min(*ttl);
			if let RD::RRSig(s) = &r.rd {
				todo.push((s.signer.clone(), DNSKEY));
				if s.signer.n() > 0 { todo.push((s.signer.clone(), DS)); }
			}
		}
		p.kept.insert((n.clone(), t), kept);
		p.msgs.insert((n, t), b);
	}
	p.needed = p.msgs.len();
	let target = a.target.clone()?;
	p.expect = w.proven(&[&a]).into_iter().filter(|r| r.name == target).collect();
	Some(p)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
	None,
	/// After so many answers, close
	Close(usize),
	/// Announce an answer, send part of it, close
	Partial(usize),
	/// Something else instead of an answer
	Garbage(usize, u8),
	/// Answers that name ever more zones
	Endless(u8),
	/// After so many answers, nothing more for as long as anybody waits
	Stall(usize),
}
pub const GARBAGE_KINDS: u8 = 13;

/// Spoils an answer so that no builder may accept it
pub fn garbage(rng: &mut Rng, kind: u8, good: &[u8]) -> Vec<u8> {
	let mut b = good.to_vec();
	let put = |b: &mut Vec<u8>, i: usize, v: u16| b[i..i + 2].copy_from_slice(&v.to_be_bytes());
	match kind {
		0 => { b.clear(); },
		1 => { let n = rng.range(1, 11); b.truncate(n); },
		2 => { let n = rng.range(12, 60); b = rng.bytes(n); b[2] &= 0x7f; },
		3 => put(&mut b, 2, 0x81a2), // server failure
		4 => put(&mut b, 2, 0x81a3), // no such name
		5 => put(&mut b, 2, 0x8180), // not authenticated
		6 => put(&mut b, 2, 0x83a0), // truncated
		7 => put(&mut b, 2, 0x01a0), // a query
		8 => { b[0] ^= 0x55; }, // somebody else's answer
		9 => put(&mut b, 6, 0), // no answers
		10 => { let an = u16::from_be_bytes([b[6], b[7]]); put(&mut b, 6, an.wrapping_add(500)); let n = b.len(); b.truncate(n - 1); },
		11 => put(&mut b, 4, 2),
		_ => put(&mut b, 2, 0x81a5), // refused
	}
	b
}

#[derive(Clone, Default)]
pub struct Script {
	pub answers: HashMap<(Nm, u16), Vec<u8>>,
	/// By first question
	pub faults: HashMap<(Nm, u16), Fault>,
	/// Out of 100: write in small pieces; hold answers back to reorder them; pause
	pub fragment: usize,
	pub reorder: usize,
	pub pause: usize,
}
#[derive(Default)]
pub struct Seen {
	pub connections: AtomicU64, pub queries: AtomicU64, pub answers: AtomicU64, pub faults: AtomicU64, pub reordered: AtomicU64, pub fragmented: AtomicU64, pub max_queries: AtomicU64,
	pub nxdomain: AtomicU64, pub idle: AtomicU64,
	pub wrong: Mutex<Vec<String>>,
}
pub struct Resolver { pub addr: SocketAddr, pub seen: Arc<Seen>, stop: Arc<AtomicBool>, thread: Option<std::thread::JoinHandle<()>> }

/// A listener somewhere in 127.0.0.0/8: connections linger after they end, and a single address would run out of ports
pub fn loopback_listener(seed: u64) -> TcpListener {
	let mut r = Rng::new(seed, "address", 0);
	let mut err = None;
	for _ in 0..50 {
		let ip = [127, r.byte(), r.byte(), r.range(1, 254) as u8];
		match TcpListener::bind(SocketAddr::from((ip, 0))) { Ok(l) => return l, Err(e) => err = Some(e) }
	}
	panic!("bind: {:?}", err)
}
impl Resolver {
	pub fn start(seed: u64, script: Script) -> Resolver {
		Resolver::on(loopback_listener(seed), seed, script)
	}
	/// None: the address is taken
	pub fn start_at(addr: SocketAddr, seed: u64, script: Script) -> Option<Resolver> { TcpListener::bind(addr).ok().map(|l| Resolver::on(l, seed, script)) }
	fn on(l: TcpListener, seed: u64, script: Script) -> Resolver {
		let addr = l.local_addr().unwrap();
		let stop = Arc::new(AtomicBool::new(false));
		let seen = Arc::new(Seen::default());
		let script = Arc::new(script);
		let (s2, n2) = (stop.clone(), seen.clone());
		let thread = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
			let mut conns = Vec::new();
			let mut i = 0;
			for c in l.incoming() {
				if s2.load(Ordering::Acquire) { break; }
				let Ok(c) = c else { std::thread::sleep(Duration::from_millis(1)); continue };
				i += 1;
				n2.connections.fetch_add(1, Ordering::Relaxed);
				let (sc, se, st) = (script.clone(), n2.clone(), s2.clone());
				conns.push(std::thread::Builder::new().stack_size(512 << 10).spawn(move || { let _ = serve(c, Rng::new(seed, "resolver", i), &sc, &se, &st); }).unwrap());
				if conns.len() > 64 { conns.retain(|h: &std::thread::JoinHandle<()>| !h.is_finished()); }
			}
			for c in conns { let _ = c.join(); }
		}).unwrap();
		Resolver { addr, seen, stop, thread: Some(thread) }
	}
	pub fn stop(&mut self) {
		self.stop.store(true, Ordering::Release);
		let _ = TcpStream::connect(self.addr);
		if let Some(t) = self.thread.take() { let _ = t.join(); }
	}
}
impl Drop for Resolver { fn drop(&mut self) { self.stop(); } }

/// Writes in pieces, so that the peer has to put them together
pub fn write_pieces(s: &mut TcpStream, rng: &mut Rng, d: &[u8], fragment: bool, pause: bool) -> std::io::Result<()> {
	if !fragment { return s.write_all(d); }
	let mut i = 0;
	let mut writes = 0;
	while i < d.len() {
		let n = if writes > 200 { d.len() - i } else { match rng.below(4) { 0 => 1, 1 => rng.range(1, 3), 2 => rng.range(1, 40), _ => rng.range(1, 700) } }.min(d.len() - i);
		s.write_all(&d[i..i + n])?;
		i += n;
		writes += 1;
		if pause && rng.chance(1, 3) { std::thread::sleep(Duration::from_micros(rng.range(10, 300) as u64)); } else if rng.chance(1, 3) { std::thread::yield_now(); }
	}
	Ok(())
}

/// Acknowledge at once: a query comes in two writes, and the second waits for the acknowledgement of the first
fn quickack(s: &TcpStream) {
	use std::os::fd::AsRawFd as _;
	let one: libc::c_int = 1;
	unsafe { libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, std::mem::size_of_val(&one) as libc::socklen_t); }
}
fn serve(mut s: TcpStream, mut rng: Rng, script: &Script, seen: &Seen, stop: &AtomicBool) -> std::io::Result<()> {
	s.set_nodelay(true)?;
	let mut buf: Vec<u8> = Vec::new();
	let mut queue: Vec<(Nm, u16, u16)> = Vec::new();
	let (mut queries, mut answered) = (0u64, 0usize);
	let mut fault: Option<Fault> = None;
	let (fragment, reorder, pause) = (rng.chance(script.fragment, 100), rng.chance(script.reorder, 100), rng.chance(script.pause, 100));
	let mut last = Instant::now();
	let mut tmp = [0u8; 4096];
	loop {
		// take in what there is; wait while there is nothing to do, and a little when answers are to be reordered
		let wait = if queue.is_empty() { 50_000 } else if reorder { rng.range(50, 1500) as u64 } else { 0 };
		if wait > 0 || queue.is_empty() {
			s.set_read_timeout(Some(Duration::from_micros(wait.max(1))))?;
			quickack(&s);
			match s.read(&mut tmp) {
				Ok(0) => return Ok(()),
				Ok(n) => { buf.extend(&tmp[..n]); last = Instant::now(); },
				Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => {},
				Err(e) => return Err(e),
			}
		}
		while buf.len() >= 2 {
			let n = u16::from_be_bytes([buf[0], buf[1]]) as usize;
			if buf.len() < 2 + n { break; }
			let q: Vec<u8> = buf.drain(..2 + n).skip(2).collect();
			queries += 1;
			seen.queries.fetch_add(1, Ordering::Relaxed);
			seen.max_queries.fetch_max(queries, Ordering::Relaxed);
			match read_query(&q) {
				Ok((id, n, t)) => { if fault.is_none() { fault = Some(script.faults.get(&(n.clone(), t)).cloned().unwrap_or(Fault::None)); } queue.push((n, t, id)) },
				Err(e) => { seen.wrong.lock().unwrap().push(format!("a query on the wire {}: {}", e, hex(&q))); return Ok(()); },
			}
		}
		if queue.is_empty() {
			if stop.load(Ordering::Acquire) { return Ok(()); }
			// Everything is answered and nothing happens: let go of the connection rather than hang for ever
			if last.elapsed() > Duration::from_secs(25) { seen.idle.fetch_add(1, Ordering::Relaxed); return Ok(()); }
			continue;
		}
		let i = if reorder { rng.below(queue.len()) } else { 0 };
		if i > 0 { seen.reordered.fetch_add(1, Ordering::Relaxed); }
		let (n, t, id) = queue.remove(i);
		let mut b = match script.answers.get(&(n.clone(), t)) {
			Some(b) => b.clone(),
			None => {
				seen.nxdomain.fetch_add(1, Ordering::Relaxed);
				let mut m = Msg::new(&n, t);
				m.flags = 0x81a3;
				encode(&mut rng, &m, Comp::No)
			},
		};
		b[..2].copy_from_slice(&id.to_be_bytes());
		match fault.clone().unwrap_or(Fault::None) {
			Fault::Close(k) if answered >= k => { seen.faults.fetch_add(1, Ordering::Relaxed); return Ok(()); },
			Fault::Stall(k) if answered >= k => {
				seen.faults.fetch_add(1, Ordering::Relaxed);
				s.set_read_timeout(Some(Duration::from_millis(30)))?;
				while !stop.load(Ordering::Acquire) { match s.read(&mut tmp) { Ok(0) => break, Err(e) if !matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) => break, _ => {} } }
				return Ok(());
			},
			Fault::Partial(k) if answered >= k => {
				seen.faults.fetch_add(1, Ordering::Relaxed);
				let full = [&(b.len() as u16).to_be_bytes()[..], &b[..]].concat();
				let n = rng.range(1, full.len() - 1);
				s.write_all(&full[..n])?;
				return Ok(());
			},
			Fault::Garbage(k, kind) if answered >= k => { seen.faults.fetch_add(1, Ordering::Relaxed); b = garbage(&mut rng, kind, &b); },
			Fault::Endless(per) => {
				seen.faults.fetch_add(1, Ordering::Relaxed);
				let mut m = Msg::new(&n, t);
				m.id = id;
				m.sections[0].push(item(Rec::new(&n, RD::A([1, 2, 3, 4])), 9));
				for j in 0..per {
					let z = Nm::new(&format!("z{}-{}-{}.", answered, j, rng.below(1 << 30)));
					m.sections[0].push(item(Rec::new(&n, RD::RRSig(Sig { ty: A, alg: 15, labels: n.n() as u8, ttl: 9, exp: NOW + 9, inc: NOW, tag: 1, signer: z, sig: vec![1; 64] })), 9));
				}
				b = encode(&mut rng, &m, Comp::Std);
			},
			_ => {},
		}
		let full = [&(b.len() as u16).to_be_bytes()[..], &b[..]].concat();
		if fragment { seen.fragmented.fetch_add(1, Ordering::Relaxed); }
		answered += 1;
		seen.answers.fetch_add(1, Ordering::Relaxed);
		write_pieces(&mut s, &mut rng, &full, fragment, pause)?;
		last = Instant::now();
	}
}
