//! Deterministic randomness, the campaign runner, the in-library guard (panic / CPU / memory monitor) and evidence.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
		let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
		for b in stream.bytes() { r.0 = r.next() ^ b as u64; }
		r.0 = r.next() ^ idx;
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
		z ^ (z >> 31)
	}
	/// Uniform in 0..n (n > 0)
	pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
	/// Uniform in a..=b
	pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
	pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
	pub fn byte(&mut self) -> u8 { self.next() as u8 }
	pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
	}
	/// A size that likes boundaries
	pub fn size(&mut self, max: usize) -> usize {
		const B: [usize; 30] = [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257,
			509, 510, 511, 512, 1024, 2047, 2048, 2049];
		if self.chance(1, 2) {
			let c: Vec<usize> = B.iter().copied().filter(|b| *b <= max).collect();
			*self.pick(&c)
		} else if self.chance(3, 4) {
			self.range(0, max.min(40))
		} else { self.range(0, max) }
	}
	pub fn u16b(&mut self) -> u16 {
		match self.below(4) { 0 => *self.pick(&[0, 1, 2, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff]), 1 => self.below(64) as u16, _ => self.next() as u16 }
	}
	pub fn u32b(&mut self) -> u32 {
		match self.below(4) { 0 => *self.pick(&[0, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]), 1 => self.below(100_000) as u32, _ => self.next() as u32 }
	}
	pub fn u8b(&mut self) -> u8 {
		if self.chance(1, 3) { *self.pick(&[0, 1, 2, 3, 127, 128, 254, 255]) } else { self.byte() }
	}
}

pub fn fnv(data: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for b in data { h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3); }
	h
}

pub fn hex(d: &[u8]) -> String {
	let mut s = String::with_capacity(d.len() * 2);
	for b in d { let _ = write!(s, "{:02x}", b); }
	s
}
pub fn unhex(s: &str) -> Vec<u8> {
	let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
	s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

// ---------------------------------------------------------------- allocation monitor

thread_local! {
	static LIVE: Cell<isize> = const { Cell::new(0) };
	static PEAK: Cell<isize> = const { Cell::new(0) };
	static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
pub struct CountingAlloc;
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
	unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size() as isize); std::alloc::System.alloc(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { note(-(l.size() as isize)); std::alloc::System.dealloc(p, l) }
	unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size() as isize); std::alloc::System.alloc_zeroed(l) }
	unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
		note(n as isize - l.size() as isize);
		std::alloc::System.realloc(p, l, n)
	}
}
fn note(d: isize) {
	let _ = LIVE.try_with(|l| {
		let n = l.get() + d;
		l.set(n);
		let _ = PEAK.try_with(|p| if n > p.get() { p.set(n) });
	});
	if d > 0 { let _ = ALLOCS.try_with(|a| a.set(a.get() + 1)); }
}

// ---------------------------------------------------------------- per-thread slots shared with the parent process

const SLOTS: usize = 64;
#[repr(C)]
struct Slot { phase: AtomicU32, in_lib: AtomicU32, case: AtomicU64, cpu_start_us: AtomicU64, limit_us: AtomicU64, tid: AtomicU64, what: [AtomicU32; 16] }
static SLOT_PTR: AtomicU64 = AtomicU64::new(0);
fn slots() -> Option<&'static [Slot; SLOTS]> {
	let p = SLOT_PTR.load(Ordering::Acquire);
	if p == 0 { None } else { Some(unsafe { &*(p as *const [Slot; SLOTS]) }) }
}
fn map_slots(path: &str) {
	let c = std::ffi::CString::new(path).unwrap();
	unsafe {
		let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600);
		assert!(fd >= 0, "cannot open {}", path);
		let len = std::mem::size_of::<[Slot; SLOTS]>();
		assert!(libc::ftruncate(fd, len as i64) == 0);
		let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
		assert!(p != libc::MAP_FAILED);
		libc::close(fd);
		SLOT_PTR.store(p as u64, Ordering::Release);
	}
}
fn set_what(s: &Slot, what: &str) {
	let mut b = [0u8; 64];
	for (i, c) in what.bytes().take(64).enumerate() { b[i] = c; }
	for i in 0..16 { s.what[i].store(u32::from_le_bytes([b[i * 4], b[i * 4 + 1], b[i * 4 + 2], b[i * 4 + 3]]), Ordering::Relaxed); }
}
fn get_what(s: &Slot) -> String {
	let mut b = Vec::new();
	for i in 0..16 { b.extend_from_slice(&s.what[i].load(Ordering::Relaxed).to_le_bytes()); }
	String::from_utf8_lossy(&b).trim_end_matches('\0').to_string()
}

thread_local! {
	static MY_SLOT: Cell<Option<usize>> = const { Cell::new(None) };
	static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
	static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

pub fn thread_cpu_us() -> u64 {
	unsafe {
		let mut ts: libc::timespec = std::mem::zeroed();
		libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
		ts.tv_sec as u64 * 1_000_000 + ts.tv_nsec as u64 / 1000
	}
}
fn other_thread_cpu_us(pthread: u64) -> Option<u64> {
	unsafe {
		let mut clk: libc::clockid_t = 0;
		if libc::pthread_getcpuclockid(pthread as libc::pthread_t, &mut clk) != 0 { return None; }
		let mut ts: libc::timespec = std::mem::zeroed();
		if libc::clock_gettime(clk, &mut ts) != 0 { return None; }
		Some(ts.tv_sec as u64 * 1_000_000 + ts.tv_nsec as u64 / 1000)
	}
}

#[derive(Debug, Clone)]
pub struct Viol(pub String);
pub type R = Result<(), Viol>;
impl<T: Into<String>> From<T> for Viol { fn from(s: T) -> Viol { Viol(s.into()) } }

#[macro_export]
macro_rules! viol { ($($a:tt)*) => { return Err($crate::util::Viol(format!($($a)*))) } }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::util::Viol(format!($($a)*))) } } }

/// The CPU time one library call may use before it counts as not terminating: about a thousand times
/// what the most expensive legitimate case takes here.
pub const CPU_LIMIT_US: u64 = 25_000_000;

pub struct Guarded<T> { pub value: T, pub cpu_us: u64, pub peak: isize, pub allocs: u64 }

/// Runs a call into the code under test: panics become violations, CPU time and memory are measured.
pub fn guard_m<T>(what: &str, f: impl FnOnce() -> T) -> Result<Guarded<T>, Viol> { guard_lim(what, CPU_LIMIT_US, f) }
pub fn guard_lim<T>(what: &str, limit_us: u64, f: impl FnOnce() -> T) -> Result<Guarded<T>, Viol> {
	let slot = MY_SLOT.with(|s| s.get()).and_then(|i| slots().map(|s| &s[i]));
	let start = thread_cpu_us();
	if let Some(s) = slot {
		set_what(s, what);
		s.limit_us.store(limit_us, Ordering::Relaxed);
		s.cpu_start_us.store(start, Ordering::Relaxed);
		s.in_lib.store(1, Ordering::Release);
	}
	let live0 = LIVE.with(|l| l.get());
	PEAK.with(|p| p.set(live0));
	let allocs0 = ALLOCS.with(|a| a.get());
	let was = IN_LIB.with(|i| i.replace(true));
	let res = catch_unwind(AssertUnwindSafe(f));
	IN_LIB.with(|i| i.set(was));
	let peak = PEAK.with(|p| p.get()) - live0;
	let allocs = ALLOCS.with(|a| a.get()) - allocs0;
	let cpu_us = thread_cpu_us() - start;
	if let Some(s) = slot { s.in_lib.store(0, Ordering::Release); }
	match res {
		Ok(value) => Ok(Guarded { value, cpu_us, peak, allocs }),
		Err(e) => {
			let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| panic_text(&*e));
			Err(Viol(format!("{} panicked: {}", what, m)))
		},
	}
}
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> { guard_m(what, f).map(|g| g.value) }

fn panic_text(e: &(dyn Any + Send)) -> String {
	if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
	else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}

// ---------------------------------------------------------------- campaigns

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub distinct: HashSet<u64>,
	pub counters: BTreeMap<String, u64>,
	pub samples: Vec<String>,
}
impl Stats {
	fn merge(&mut self, o: Stats) {
		self.evaluations += o.evaluations;
		self.distinct.extend(o.distinct);
		for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
		for s in o.samples { if self.samples.len() < 6 { self.samples.push(s); } }
	}
}

pub struct Case<'a> {
	pub rng: Rng,
	pub idx: u64,
	pub phase: &'static str,
	pub thorough: bool,
	stats: &'a mut Stats,
	artifacts: Vec<(String, String)>,
}
impl<'a> Case<'a> {
	pub fn count(&mut self, k: &str) { self.add(k, 1) }
	pub fn add(&mut self, k: &str, n: u64) {
		if let Some(c) = self.stats.counters.get_mut(k) { *c += n } else { self.stats.counters.insert(k.to_string(), n); }
	}
	/// One more execution of the code under test
	pub fn eval(&mut self) { self.stats.evaluations += 1; }
	/// The case was non-trivial; its fingerprint makes distinct ones countable
	pub fn nontrivial(&mut self, fp: u64) { self.stats.distinct.insert(fp ^ fnv(self.phase.as_bytes())); }
	pub fn sample(&mut self, s: impl FnOnce() -> String) {
		if self.stats.samples.len() < 6 && self.idx < 64 {
			let mut t = s();
			if t.len() > 1500 { let mut n = 1500; while !t.is_char_boundary(n) { n -= 1 } t.truncate(n); t += "..."; }
			self.stats.samples.push(format!("[{} #{}] {}", self.phase, self.idx, t));
		}
	}
	/// Keeps something to write into the replay file should this case be violated
	pub fn artifact(&mut self, k: &str, v: String) { self.artifacts.push((k.to_string(), v)); }
	pub fn reset_artifacts(&mut self) { self.artifacts.clear(); }
}

pub type CaseFn = fn(&mut Case) -> R;
pub struct Phase { pub name: &'static str, pub quick: u64, pub thorough: u64, pub f: CaseFn }
impl Phase {
	pub const fn new(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Phase { Phase { name, quick, thorough, f } }
}

pub struct Check {
	pub id: &'static str,
	pub rule: &'static str,
	pub phases: Vec<Phase>,
	/// Counters that must be non-zero, or the run was inconclusive
	pub required: &'static [&'static str],
	pub assumptions: &'static [&'static str],
	/// Known findings to re-test: (key in the known-findings file, probe giving Some(what fails) while it still fails)
	pub known: Vec<(&'static str, fn() -> Result<Option<String>, Viol>)>,
}

pub struct Opts { pub seed: u64, pub thorough: bool, pub only: Option<(String, u64)>, pub threads: usize, pub time_cap: Duration, pub suffix: String, pub root: String }

static STOP: AtomicBool = AtomicBool::new(false);
/// How often this process was kept from running for a second or more
static STALLS: AtomicU64 = AtomicU64::new(0);
static FOUND: Mutex<Vec<(String, u64, String, Vec<(String, String)>)>> = Mutex::new(Vec::new());
static HARNESS_ERR: Mutex<Option<String>> = Mutex::new(None);

fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = panic_text_info(info);
		PANIC_MSG.with(|p| *p.borrow_mut() = Some(msg.clone()));
		if !IN_LIB.with(|i| i.get()) { eprintln!("harness panic: {}", msg); }
	}));
}
fn panic_text_info(info: &std::panic::PanicHookInfo) -> String {
	let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
		else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
	format!("{} at {}", m, info.location().map(|l| l.to_string()).unwrap_or_default())
}

fn write_replay(opts: &Opts, id: &str, phase: &str, case: u64, msg: &str, arts: &[(String, String)]) -> String {
	let dir = format!("{}/replays", opts.root);
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{}/{}-{}-{}-{}.txt", dir, id, phase, opts.seed, case);
	let mut t = format!("property: {}\nviolation: {}\nseed: {}\nphase: {}\ncase: {}\nreplay: VERIF_SEED={} bash /verif/check.sh {} {} --only {}:{}\n\n",
		id, msg, opts.seed, phase, case, opts.seed, id, if opts.thorough { "thorough" } else { "quick" }, phase, case);
	for (k, v) in arts { let _ = writeln!(t, "{}:\n{}\n", k, v); }
	let _ = std::fs::write(&path, t);
	path
}

fn run_phase(check: &Check, pi: usize, opts: &Opts, deadline: Instant, total: &Mutex<Stats>) {
	let phase = &check.phases[pi];
	let n = if opts.thorough { phase.thorough } else { phase.quick };
	let (first, n) = match &opts.only {
		Some((p, c)) if p == phase.name => (*c, *c + 1),
		Some(_) => return,
		None => (0, n),
	};
	let next = AtomicU64::new(first);
	let threads = if opts.only.is_some() { 1 } else { opts.threads };
	std::thread::scope(|sc| {
		for t in 0..threads {
			let next = &next;
			std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || {
				MY_SLOT.with(|s| s.set(Some(t)));
				if let Some(sl) = slots() {
					sl[t].tid.store(unsafe { libc::pthread_self() } as u64, Ordering::Release);
					sl[t].phase.store(pi as u32, Ordering::Relaxed);
				}
				let mut stats = Stats::default();
				loop {
					if STOP.load(Ordering::Relaxed) || Instant::now() >= deadline { break; }
					let idx = next.fetch_add(1, Ordering::Relaxed);
					if idx >= n { break; }
					if let Some(sl) = slots() { sl[t].case.store(idx, Ordering::Release); }
					let stalls = STALLS.load(Ordering::Relaxed);
					let mut attempt = || {
						let mut case = Case {
							rng: Rng::new(opts.seed, &format!("{}/{}", check.id, phase.name), idx),
							idx, phase: phase.name, thorough: opts.thorough, stats: &mut stats, artifacts: Vec::new(),
						};
						let res = catch_unwind(AssertUnwindSafe(|| (phase.f)(&mut case)));
						(res, std::mem::take(&mut case.artifacts))
					};
					let (mut res, mut arts) = attempt();
					// Only these wait for other processes or threads; a machine that stood still says nothing about them.
					if matches!(check.id, "C17" | "C18") && matches!(res, Ok(Err(_))) && STALLS.load(Ordering::Relaxed) != stalls {
						eprintln!("{} #{} is repeated as this process was kept from running", phase.name, idx);
						(res, arts) = attempt();
					}
					match res {
						Ok(Ok(())) => {},
						Ok(Err(Viol(m))) => {
							STOP.store(true, Ordering::Relaxed);
							FOUND.lock().unwrap().push((phase.name.to_string(), idx, m, arts));
						},
						Err(e) => {
							STOP.store(true, Ordering::Relaxed);
							let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| panic_text(&*e));
							*HARNESS_ERR.lock().unwrap() = Some(format!("harness panic in {} #{}: {}", phase.name, idx, m));
						},
					}
				}
				if let Some(sl) = slots() { sl[t].tid.store(0, Ordering::Release); }
				total.lock().unwrap().merge(stats);
			}).unwrap();
		}
	});
}

pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t",
			c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); },
			c => o.push(c),
		}
	}
	o + "\""
}

fn write_evidence(check: &Check, opts: &Opts, stats: &Stats, wall: f64, violations: usize) {
	let dir = format!("{}/evidence", opts.root);
	let _ = std::fs::create_dir_all(&dir);
	let mut s = String::new();
	let _ = write!(s, "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{",
		jstr(check.id), if opts.thorough { "thorough" } else { "quick" }, opts.seed, stats.evaluations, stats.distinct.len(), jstr(check.rule));
	for (i, (k, v)) in stats.counters.iter().enumerate() { let _ = write!(s, "{}{}: {}", if i > 0 { ", " } else { "" }, jstr(k), v); }
	s += "},\n  \"samples\": [";
	for (i, v) in stats.samples.iter().enumerate() { let _ = write!(s, "{}{}", if i > 0 { ", " } else { "" }, jstr(v)); }
	s += "]\n },\n \"assumptions\": [";
	for (i, v) in check.assumptions.iter().enumerate() { let _ = write!(s, "{}{}", if i > 0 { ", " } else { "" }, jstr(v)); }
	let _ = write!(s, "],\n \"wall_s\": {:.1}, \"violations\": {}\n}}\n", wall, violations);
	let _ = std::fs::write(format!("{}/{}{}.json", dir, check.id, opts.suffix), s);
}

/// Which known findings of a property the committed file lists
fn listed_findings(root: &str, id: &str) -> Vec<(String, String)> {
	let t = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
	t.lines().filter_map(|l| {
		let l = l.strip_prefix("KNOWN-FINDING: ")?;
		let l = l.strip_prefix(&format!("property={} ", id))?;
		let l = l.strip_prefix("key=")?;
		let (k, d) = l.split_once(' ')?;
		Some((k.to_string(), d.to_string()))
	}).collect()
}

fn run_child(check: &Check, opts: &Opts) -> i32 {
	install_panic_hook();
	let start = Instant::now();
	let deadline = start + opts.time_cap;
	let total = Mutex::new(Stats::default());
	// The watchdog: a library call that uses too much CPU time does not terminate as far as a user can tell.
	let done = AtomicBool::new(false);
	let mut code = 0;
	std::thread::scope(|sc| {
		sc.spawn(|| {
			let mut tick = Instant::now();
			while !done.load(Ordering::Relaxed) {
				std::thread::sleep(Duration::from_millis(100));
				if tick.elapsed() > Duration::from_millis(1100) { STALLS.fetch_add(1, Ordering::Relaxed); }
				tick = Instant::now();
				let Some(sl) = slots() else { continue };
				for s in sl.iter() {
					let tid = s.tid.load(Ordering::Acquire);
					if tid == 0 || s.in_lib.load(Ordering::Acquire) == 0 { continue; }
					let (c0, lim, case) = (s.cpu_start_us.load(Ordering::Relaxed), s.limit_us.load(Ordering::Relaxed), s.case.load(Ordering::Relaxed));
					let Some(now) = other_thread_cpu_us(tid) else { continue };
					if now > c0 && now - c0 > lim && s.in_lib.load(Ordering::Acquire) == 1 && s.cpu_start_us.load(Ordering::Relaxed) == c0 {
						let phase = check.phases[s.phase.load(Ordering::Relaxed) as usize].name;
						let msg = format!("{} did not return within {} s of CPU time", get_what(s), lim / 1_000_000);
						let p = write_replay(opts, check.id, phase, case, &msg, &[]);
						println!("{}", msg);
						println!("VIOLATION property={} replay={}", check.id, p);
						let st = Stats { evaluations: 1, ..Default::default() };
						write_evidence(check, opts, &st, start.elapsed().as_secs_f64(), 1);
						unsafe { libc::_exit(1) };
					}
				}
			}
		});
		// Known findings first
		if opts.only.is_none() {
			let listed = listed_findings(&opts.root, check.id);
			for (key, probe) in check.known.iter() {
				match probe() {
					Ok(None) => {},
					Ok(Some(what)) => {
						if let Some((_, d)) = listed.iter().find(|(k, _)| k == key) {
							println!("KNOWN-FINDING: property={} {} ({})", check.id, d, what);
							*total.lock().unwrap().counters.entry("known_findings_reproduced".into()).or_insert(0) += 1;
						} else {
							FOUND.lock().unwrap().push((key.to_string(), 0, what, Vec::new()));
							STOP.store(true, Ordering::Relaxed);
						}
					},
					Err(Viol(m)) => { FOUND.lock().unwrap().push((key.to_string(), 0, m, Vec::new())); STOP.store(true, Ordering::Relaxed); },
				}
			}
		}
		// Each phase gets its share of the remaining time, by case weight
		let np = check.phases.len();
		for pi in 0..np {
			if STOP.load(Ordering::Relaxed) { break; }
			let now = Instant::now();
			if now >= deadline { break; }
			let share = if opts.only.is_some() { deadline } else { now + (deadline - now) / ((np - pi) as u32) * if pi + 1 == np { 1 } else { 2 }.min((np - pi) as u32) };
			let t0 = Instant::now();
			let before = total.lock().unwrap().evaluations;
			run_phase(check, pi, opts, share.min(deadline), &total);
			if std::env::var_os("VH_VERBOSE").is_some() {
				eprintln!("phase {}: {:.1}s, {} evaluations", check.phases[pi].name, t0.elapsed().as_secs_f64(), total.lock().unwrap().evaluations - before);
			}
		}
		done.store(true, Ordering::Relaxed);
	});
	let stats = total.into_inner().unwrap();
	let found = std::mem::take(&mut *FOUND.lock().unwrap());
	write_evidence(check, opts, &stats, start.elapsed().as_secs_f64(), found.len());
	for (phase, case, msg, arts) in found.iter() {
		let p = write_replay(opts, check.id, phase, *case, msg, arts);
		println!("{}", msg.chars().take(2000).collect::<String>());
		println!("VIOLATION property={} replay={}", check.id, p);
		code = 1;
	}
	if code == 0 {
		if let Some(e) = HARNESS_ERR.lock().unwrap().take() { eprintln!("INCONCLUSIVE: {}", e); return 3; }
		if opts.only.is_none() {
			for r in check.required {
				if stats.counters.get(*r).copied().unwrap_or(0) == 0 { eprintln!("INCONCLUSIVE: nothing observed for {}", r); return 4; }
			}
		}
		println!("{}: held on {} executions ({} distinct non-trivial) in {:.1}s", check.id, stats.evaluations, stats.distinct.len(), start.elapsed().as_secs_f64());
		for (k, v) in stats.counters.iter() { println!("  {:<44} {}", k, v); }
	}
	code
}

/// Runs a check in a child process, so that aborts and memory errors of the code under test are observed, too.
pub fn main_with(checks: Vec<Check>) -> i32 {
	let args: Vec<String> = std::env::args().collect();
	if args.len() < 2 { eprintln!("usage: {} ID [--tier quick|thorough] [--only phase:case]", args[0]); return 2; }
	let id = args[1].clone();
	let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
	let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
	let mut only = None;
	let mut child = None;
	let mut suffix = String::new();
	let mut root = String::from("/verif");
	let mut cap = None;
	let mut i = 2;
	while i < args.len() {
		match args[i].as_str() {
			"--tier" => { thorough = args[i + 1] == "thorough"; i += 1; },
			"--only" => { let (p, c) = args[i + 1].rsplit_once(':').unwrap(); only = Some((p.to_string(), c.parse().unwrap())); i += 1; },
			"--child" => { child = Some(args[i + 1].clone()); i += 1; },
			"--suffix" => { suffix = args[i + 1].clone(); i += 1; },
			"--root" => { root = args[i + 1].clone(); i += 1; },
			"--cap" => { cap = Some(args[i + 1].parse::<u64>().unwrap()); i += 1; },
			x => { eprintln!("unknown argument {}", x); return 2; },
		}
		i += 1;
	}
	let Some(check) = checks.into_iter().find(|c| c.id == id) else { eprintln!("no check {}", id); return 2 };
	let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS).min(8);
	let time_cap = Duration::from_secs(cap.unwrap_or(if thorough { 700 } else { 240 }));
	let opts = Opts { seed, thorough, only, threads, time_cap, suffix, root };
	if let Some(path) = child {
		map_slots(&path);
		return run_child(&check, &opts);
	}
	let slot_path = format!("{}/vh-slots-{}-{}", std::env::temp_dir().display(), id, std::process::id());
	let _ = std::fs::remove_file(&slot_path);
	map_slots(&slot_path);
	let mut cmd = std::process::Command::new("/proc/self/exe");
	cmd.args(&args[1..]).arg("--child").arg(&slot_path);
	let mut ch = cmd.spawn().expect("spawn");
	// Wall-clock watchdog for the whole run; firing is inconclusive, never a violation.
	let limit = opts.time_cap + Duration::from_secs(420);
	let t0 = Instant::now();
	let status = loop {
		if let Some(s) = ch.try_wait().expect("wait") { break s; }
		if t0.elapsed() > limit { let _ = ch.kill(); let _ = ch.wait(); let _ = std::fs::remove_file(&slot_path); eprintln!("INCONCLUSIVE: run exceeded {:?}", limit); return 5; }
		std::thread::sleep(Duration::from_millis(20));
	};
	let _ = std::fs::remove_file(&slot_path);
	use std::os::unix::process::ExitStatusExt;
	if let Some(c) = status.code() {
		if c != 99 { return c; } // 99: AddressSanitizer
	}
	let sig = status.signal().unwrap_or(0);
	if status.code() == Some(99) || [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
		let mut cands = Vec::new();
		for s in slots().unwrap().iter() {
			if s.in_lib.load(Ordering::Acquire) == 1 && s.tid.load(Ordering::Acquire) != 0 {
				cands.push((check.phases[(s.phase.load(Ordering::Relaxed) as usize).min(check.phases.len() - 1)].name, s.case.load(Ordering::Relaxed), get_what(s)));
			}
		}
		if let Some((phase, case, what)) = cands.first().cloned() {
			let how = if status.code() == Some(99) { "a sanitizer report".to_string() } else { format!("signal {}", sig) };
			let msg = format!("the process died with {} while in {}", how, what);
			let all = cands.iter().map(|(p, c, w)| format!("{}:{} in {}", p, c, w)).collect::<Vec<_>>().join("\n");
			let p = write_replay(&opts, check.id, phase, case, &msg, &[("calls in progress".into(), all)]);
			let st = Stats { evaluations: 1, ..Default::default() };
			write_evidence(&check, &opts, &st, t0.elapsed().as_secs_f64(), 1);
			println!("{}", msg);
			println!("VIOLATION property={} replay={}", check.id, p);
			return 1;
		}
	}
	eprintln!("INCONCLUSIVE: child ended with {:?}", status);
	6
}
