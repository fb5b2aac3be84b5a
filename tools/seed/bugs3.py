from bugs2 import *

# A resolver on loopback which answers each query it gets with the answers of a table, written in the pieces given.
RESOLVER = r'''
	use std::io::{Read, Write};
	use std::net::{TcpListener, TcpStream, SocketAddr};
	fn read_query(s: &mut TcpStream) -> Option<Vec<u8>> {
		let mut l = [0; 2];
		s.read_exact(&mut l).ok()?;
		let mut q = vec![0; u16::from_be_bytes(l) as usize];
		s.read_exact(&mut q).ok()?;
		Some(q)
	}
	fn serve(answer: impl Fn(&[u8]) -> Vec<u8> + Send + 'static, cut: usize) -> SocketAddr {
		let l = TcpListener::bind("127.0.0.1:0").unwrap();
		let at = l.local_addr().unwrap();
		std::thread::spawn(move || {
			while let Ok((mut s, _)) = l.accept() {
				s.set_nodelay(true).unwrap();
				while let Some(q) = read_query(&mut s) {
					let a = answer(&q);
					let mut o = (a.len() as u16).to_be_bytes().to_vec();
					o.extend(a);
					for c in o.chunks(cut) { if s.write_all(c).is_err() { break; } s.flush().unwrap(); if cut < o.len() { std::thread::sleep(std::time::Duration::from_millis(30)); } }
				}
			}
		});
		at
	}
	fn rt<F: std::future::Future>(f: F) -> F::Output {
		tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), f).await.expect("no result within 20 seconds") })
	}
'''
bug('c17-short-read', 'C17', [
 (Q, "	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));\n	stream.read_exact(&mut buf).await?;\n",
     "	let mut buf = QueryBuf::new_zeroed(u16::from_be_bytes(len_bytes));\n	let received = stream.read(&mut buf).await?;\n	if received < buf.len() { let _ = stream.read(&mut buf[received..]).await?; }\n"),
], 'a response of which the body reaches an asynchronous client in three or more pieces',
 'the asynchronous build takes a response received in part for the whole one', rs=RESOLVER + '''
	for cut in [1000, 40] {
		let at = serve(|_| Resp::new("a.", T_TXT).an("a.", T_TXT, 60, &txt(&[b'x'; 150])).bytes(), cut);
		let mut want = Vec::new();
		want.extend(wire_rr("a.", T_TXT, 60, &txt(&[b'x'; 150])));
		let got = rt(dnssec_prover::query::build_txt_proof_async(at, &name("a.")));
		assert_eq!(got.unwrap().0, want);
	}
''')
bug('c17-split-length', 'C17', [
 (Q, "	stream.read_exact(&mut len_bytes).await?;", "	if stream.read(&mut len_bytes).await? == 0 { return Err(ErrorKind::UnexpectedEof.into()); }"),
], 'a segment boundary between the two bytes of a response length',
 'the asynchronous build misreads the length of a response when its two bytes arrive apart', rs=RESOLVER + '''
	for cut in [1000, 1] {
		let at = serve(|_| Resp::new("a.", T_TXT).an("a.", T_TXT, 60, &txt(b"x")).bytes(), cut);
		assert_eq!(rt(dnssec_prover::query::build_txt_proof_async(at, &name("a."))).unwrap().1, 60);
	}
''')
bug('c17-query-length', 'C17', [
 (Q, "fn send_query(stream: &mut TcpStream, query: &[u8]) -> Result<(), Error> {\n	stream.write_all(&(query.len() as u16).to_be_bytes())?;",
     "fn send_query(stream: &mut TcpStream, query: &[u8]) -> Result<(), Error> {\n	stream.write_all(&[0, query.len() as u8])?;"),
], 'a query for a name of nearly the maximum length through the blocking interface',
 'queries longer than 255 bytes are sent with a wrong length', rs=RESOLVER + '''
	let long = "a.".repeat(120);
	for n in ["a.".to_string(), long] {
		let m = n.clone();
		let at = serve(move |q| if q[12..].starts_with(&nm(&m)) { Resp::new(&m, T_TXT).an(&m, T_TXT, 60, &txt(b"x")).bytes() } else { vec![0] }, 100000);
		let (s, r) = std::sync::mpsc::channel();
		std::thread::spawn(move || { let _ = s.send(dnssec_prover::query::build_txt_proof(at, &name(&n)).map(|p| p.1)); });
		assert_eq!(r.recv_timeout(std::time::Duration::from_secs(20)).expect("no result within 20 seconds").unwrap(), 60);
	}
''')
bug('c17-ten-queries', 'C17', [
 (Q, "		if self.queries_made <= MAX_REQUESTS {\n			Ok(new_queries)", "		if self.queries_made < MAX_REQUESTS {\n			Ok(new_queries)"),
], 'a name which needs exactly the maximum number of queries',
 'the queries of the last step of a build needing ten of them are never sent, so the build waits forever', rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("x.a."), T_TXT);
	let mut r = Resp::new("x.a.", T_TXT);
	for z in ["a.", "b.", "c.", "d."] { r = r.an("x.a.", T_RRSIG, 60, &fake_sig(T_TXT, z)); }
	let q = b.process_response(&r.buf()).unwrap();
	assert_eq!(q.len(), 8);
	let q = b.process_response(&Resp::new("a.", T_DS).an("a.", T_RRSIG, 60, &fake_sig(T_DS, ".")).buf()).unwrap();
	assert_eq!(q.len(), 1);
''')
bug('c17-answers-lost', 'C17', [
 (Q, "			for query in new_queries {\n				$send_query(&mut $stream, &query)", "			for query in new_queries.iter().take(4) {\n				$send_query(&mut $stream, &query)"),
], 'an answer which names three or more zones not seen before',
 'only the first four new queries are sent after a response, so builds crossing several zones by aliases never end', rs=RESOLVER + '''
	let at = serve(|q| {
		let mut r = Resp::new("x.", T_TXT);
		if q[12..].starts_with(&nm("x.")) { for z in ["a.", "b.", "c."] { r = r.an("x.", T_RRSIG, 60, &fake_sig(T_TXT, z)); } }
		else { r = r.an("y.", T_TXT, 30, &txt(b"x")); }
		r.bytes()
	}, 100000);
	let got = rt(dnssec_prover::query::build_txt_proof_async(at, &name("x.")));
	assert_eq!(got.unwrap().1, 30);
''')

# ---------------------------------------------------------------- C18
SRV = r'''
#!/bin/bash
# Builds the proof server of the crate in the current directory and drives it over loopback.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
CARGO_TARGET_DIR="$t" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 cargo build --offline -q --features build_server --bin http_proof_gen || exit 3
timeout 120 python3 "$here/drive.py" "$t/debug/http_proof_gen" "$here/case.py"
'''
def srv(id, edits, needs, breaks, case):
    bug(id, 'C18', edits, needs, breaks, sh=SRV)
    BUGS[-1]['files'] = ['drive.py']
    BUGS[-1]['write'] = {'case.py': case.lstrip('\n')}
srv('c18-split-crlf', [
 (H, "								for window in buf[..buf_pos].windows(2) {", "								for window in buf[buf_pos - len..buf_pos].windows(2) {"),
], 'a request split between the carriage return and the line feed', 'a request whose line end is split over two reads is never answered', '''
for pieces in ([b'GET /dnssecproof?d=a.&t=TXT HTTP/1.1\\r\\n\\r\\n'], [b'GET /dnssecproof?d=a.&t=TXT HTTP/1.1\\r', b'\\n']):
    st, hd, body = ask(pieces)
    assert st == 200 and body == proof('a.', 16), (st, body)
''')
srv('c18-serial', [
 (H, "			tokio::spawn(async move {\n				let mut response", "			let handler = async move {\n				let mut response"),
 (H, "				).as_bytes()).await;\n			});", "				).as_bytes()).await;\n			};\n			handler.await"),
], 'a client which connects and sends nothing while another makes a request', 'one idle connection stops the server from serving all others', '''
idle = connect()
time.sleep(0.2)
st, hd, body = ask([b'GET /dnssecproof?d=a.&t=TXT HTTP/1.1\\r\\n\\r\\n'])
assert st == 200 and body == proof('a.', 16), (st, body)
''')
srv('c18-full-buffer', [
 (H, "						if buf_pos == buf.len() { response.1", "						if buf_pos > buf.len() { response.1"),
], 'a request line of 4096 bytes or more', 'over-long requests get no response at all', '''
st, hd, body = ask([b'GET /' + b'a' * 4091])
assert st == 400, st
''')
srv('c18-smaxage', [
 (H, "							proof.len(), cache_ttl, cache_ttl\n", "							proof.len(), cache_ttl, cache_ttl.max(60)\n"),
], 'a proof with a TTL below a minute', 'shared caches are told to keep proofs longer than their records live', '''
for ttl in (300, 7):
    TTL[0] = ttl
    st, hd, body = ask([b'GET /dnssecproof?d=a.&t=TXT HTTP/1.1\\r\\n\\r\\n'])
    assert st == 200 and hd['cache-control'] == 'public, max-age=%d, s-maxage=%d' % (ttl, ttl), hd
''')
srv('c18-type-case', [
 (H, "					let proof_res = match t.to_ascii_uppercase().as_str() {", "					let proof_res = match t {"),
], 'a record type in lower or mixed case', 'only types in upper case are served', '''
for t in (b'TXT', b'txt', b'tXt'):
    st, hd, body = ask([b'GET /dnssecproof?d=a.&t=' + t + b' HTTP/1.1\\r\\n\\r\\n'])
    assert st == 200 and body == proof('a.', 16), st
''')
srv('c18-arg-prefix', [
 (H, '							if k == "d" {', '							if k.starts_with("d") {'),
], 'a further URI parameter of which the name starts with d', 'the value of an unrelated parameter is taken for the domain', '''
for u in (b'd=a.&t=TXT', b'd=a.&debug=b.&t=TXT'):
    st, hd, body = ask([b'GET /dnssecproof?' + u + b' HTTP/1.1\\r\\n\\r\\n'])
    assert st == 200 and body == proof('a.', 16), (st, body)
''')
srv('c18-utf8', [
 (H, "					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {", "					let s = String::from_utf8(buf[..buf_pos].to_vec()).unwrap();\n					if let Some(s) = Some(s.as_str()) {"),
], 'a request which is not UTF-8', 'a request with bytes which are not UTF-8 is answered by closing the connection', '''
st, hd, body = ask([b'GET /\\xff\\xfe HTTP/1.1\\r\\n\\r\\n'])
assert st == 400, st
''')
srv('c18-aaaa', [
 (Q, "pub async fn build_aaaa_proof_async(resolver: SocketAddr, domain: &Name) -> Result<(Vec<u8>, u32), Error> {\n	build_proof_async(resolver, domain, AAAA::TYPE).await",
     "pub async fn build_aaaa_proof_async(resolver: SocketAddr, domain: &Name) -> Result<(Vec<u8>, u32), Error> {\n	build_proof_async(resolver, domain, A::TYPE).await"),
], 'a request for AAAA records', 'requests for AAAA records are answered with proofs for A records', '''
for t, n in ((b'A', 1), (b'AAAA', 28), (b'TLSA', 52), (b'TXT', 16)):
    st, hd, body = ask([b'GET /dnssecproof?d=a.&t=' + t + b' HTTP/1.1\\r\\n\\r\\n'])
    assert st == 200 and body == proof('a.', n), (t, st, body)
''')

# ---------------------------------------------------------------- C19
WASM = r'''
#!/bin/bash
# Builds the program beside this file against the web bindings of the crate in the current directory, natively, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir -p "$t/src" "$t/wee_alloc/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/demolib.rs" "$t/src/demolib.rs"
cat > "$t/wee_alloc/Cargo.toml" <<END
[package]
name = "wee_alloc"
version = "0.4.5"
edition = "2021"
END
cat > "$t/wee_alloc/src/lib.rs" <<END
use std::alloc::{GlobalAlloc, Layout, System};
pub struct WeeAlloc;
impl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc; }
unsafe impl GlobalAlloc for WeeAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
END
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dnssec-prover = { path = "$repo", features = ["std", "validation"] }
dnssec-prover-wasm = { path = "$repo/wasmpack" }
ring = { version = "0.17", default-features = false, features = ["alloc"] }
[patch.crates-io]
wee_alloc = { path = "wee_alloc" }
[profile.dev]
debug = false
incremental = false
END
cp "$here/Cargo.lock.wasm" "$t/Cargo.lock"
cd "$t"
RUSTFLAGS="--cfg dnssec_verif" CARGO_TARGET_DIR="$t/target" cargo build --offline -q || exit 3
timeout 100 "$t/target/debug/demo"
'''
def wasm(id, edits, needs, breaks, rs):
    bug(id, 'C19', edits, needs, breaks, rs='\n	use dnssec_prover_wasm::*;\n' + rs, sh=WASM)
    BUGS[-1]['files'] = ['demolib.rs', 'Cargo.lock.wasm']
wasm('c19-comma', [
 (W, 'if idx != 0 { ", " }', 'if idx > 1 { ", " }'),
], 'a proof of two or more records', 'the records of a verified stream are not separated, so the result is not JSON', '''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.set(&t, "t.", "a.t.", T_A, &[vec![1, 2, 3, 4], vec![5, 6, 7, 8]]);
	let s = verify_byte_stream(p.0.clone());
	assert!(s.contains("}, {"), "{}", s);
''')
wasm('c19-lifo', [
 (W, "	if let Some(query) = proof_builder.1.pop_front() {", "	if let Some(query) = proof_builder.1.pop_back() {"),
], 'a response which leads to two or more queries', 'queries are handed out in the reverse order', '''
	use dnssec_prover::query::ProofBuilder;
	let mut w = init_proof_builder("a.b.".to_string(), T_TXT).unwrap();
	let (mut b, q) = ProofBuilder::new(&name("a.b."), T_TXT);
	assert_eq!(get_next_query(&mut w).unwrap(), q.into_vec());
	let r = Resp::new("a.b.", T_TXT).an("a.b.", T_RRSIG, 60, &fake_sig(T_TXT, "b."));
	process_query_response(&mut w, r.bytes());
	for q in b.process_response(&r.buf()).unwrap() { assert_eq!(get_next_query(&mut w).unwrap(), q.into_vec()); }
''')
wasm('c19-no-dot', [
 (W, "	if !name.ends_with('.') { name.push('.'); }", "	if !name.contains('.') { name.push('.'); }"),
], 'a name of two or more labels without the final dot', 'names are refused unless they have the final dot', '''
	assert!(init_proof_builder("a".to_string(), T_TXT).is_some());
	assert!(init_proof_builder("a.b".to_string(), T_TXT).is_some());
''')
wasm('c19-drop-pending', [
 (W, "		if let Ok(queries) = proof_builder.0.process_response(&answer) {\n			for", "		let queries = proof_builder.0.process_response(&answer);\n		if queries.is_err() { proof_builder.1.clear(); }\n		if let Ok(queries) = queries {\n			for"),
], 'an unusable response while queries wait to be fetched', 'an unusable response makes the builder lose queries that it still needs', '''
	let mut w = init_proof_builder("a.b.".to_string(), T_TXT).unwrap();
	get_next_query(&mut w).unwrap();
	process_query_response(&mut w, Resp::new("a.b.", T_TXT).an("a.b.", T_RRSIG, 60, &fake_sig(T_TXT, "b.")).bytes());
	get_next_query(&mut w).unwrap();
	process_query_response(&mut w, vec![1, 2, 3]);
	assert!(get_next_query(&mut w).is_some());
''')
wasm('c19-window', [
 (W, "		verified_rrs.valid_from, verified_rrs.expires, verified_rrs.max_cache_ttl)", "		verified_rrs.valid_from as u32, verified_rrs.expires as u32, verified_rrs.max_cache_ttl)"),
], 'signatures which expire after February 2106', 'times beyond the 32-bit range are reported wrongly', '''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::default();
	anchor(&r);
	let o = || Opt { inc: 4_294_000_000, exp: 100_000, ..Opt::default() };
	p.setx(&r, ".", ".", T_DNSKEY, &[r.rd()], o());
	p.setx(&r, ".", "t.", T_TXT, &[txt(b"x")], o());
	let v = p.verify().unwrap();
	let s = verify_byte_stream(p.0.clone());
	assert!(s.contains(&format!("\\"expires\\": {},", v.exp)), "{} {}", s, v.exp);
''')
wasm('c19-leftover', [
 (W, "	proof_builder.0.finish_proof().ok().map(|(proof, _ttl)| proof)", "	if !proof_builder.1.is_empty() { return None }\n	proof_builder.0.finish_proof().ok().map(|(proof, _ttl)| proof).filter(|proof| proof.len() <= u16::MAX as usize)"),
], 'a proof of more than 65535 bytes', 'long proofs are not handed out', '''
	for n in [1, 9] {
		let mut w = init_proof_builder("a.".to_string(), T_TXT).unwrap();
		let r = |q: &str, sig: Option<&str>| { let mut r = Resp::new(q, T_TXT); for _ in 0..3 { r = r.an(q, T_TXT, 60, &txt(&[1; 3000])); } if let Some(s) = sig { r = r.an(q, T_RRSIG, 60, &fake_sig(T_TXT, s)); } r.bytes() };
		get_next_query(&mut w).unwrap();
		let zones = ["b.", "c.", "d.", "e."];
		process_query_response(&mut w, r("a.", if n > 1 { Some(zones[0]) } else { None }));
		let mut i = 1;
		while let Some(q) = get_next_query(&mut w) { let last = q[12..].windows(2).any(|w| w == [0, 43]); process_query_response(&mut w, r("a.", if last && i < 4 { i += 1; Some(zones[i - 1]) } else { None })); }
		assert!(get_unverified_proof(w).is_some());
	}
''')

# ---------------------------------------------------------------- C20
PROD = r'''
#!/bin/bash
# Builds the program beside this file, in PROFILE_FLAGS, as users of the crate in the current directory do, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
std = ["dnssec-prover/std"]
tokio = ["dnssec-prover/tokio"]
[dependencies]
dnssec-prover = { path = "$repo" }
END
cp "$here/Cargo.lock.prod" "$t/Cargo.lock"
cd "$t"
for f in "" "--release" "--features std" "--features tokio"; do
	CARGO_TARGET_DIR="$t/target" cargo build --offline -q $f || exit 3
	d=debug; [ "$f" = "--release" ] && d=release
	timeout 100 "$t/target/$d/demo" || { echo "wrong in a build with '$f'"; exit 1; }
done
'''
ANCHORS = r'''
#![allow(unused_imports)]
use dnssec_prover::rr::*;
use dnssec_prover::validation::*;
fn main() {
	let hex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
	let want = [(19036, hex("49AAC11D7B6F6446702E54A1607371607A1A41855200FD2CE1CDDE32F24E8FB5")), (20326, hex("E06D44B80B8F1D39A95C0B0D7C65D08458E880409BBC683457104237C7F8EC8D"))];
	let got = root_hints();
	assert_eq!(got.len(), 2, "the number of trust anchors");
	for d in got { assert!(d.name.as_str() == "." && d.alg == 8 && d.digest_type == 2 && want.contains(&(d.key_tag, d.digest.clone())), "anchor {:?}", d); }
}
'''
def prod(id, edits, needs, breaks, rs=ANCHORS):
    bug(id, 'C20', edits, needs, breaks, sh=PROD)
    BUGS[-1]['files'] = ['Cargo.lock.prod']
    BUGS[-1]['write'] = {'demo.rs': rs.lstrip('\n')}
prod('c20-debug', [(V, "	// In tests, add the trust anchor from RFC 9102\n	#[cfg(test)]", "	// In tests, add the trust anchor from RFC 9102\n	#[cfg(any(test, debug_assertions))]")],
 'a build with debug assertions which is not a test', 'debug builds trust the example root of RFC 9102, of which the private key is not known to be secret')
prod('c20-std', [(V, "	// In tests, add the trust anchor from RFC 9102\n	#[cfg(test)]", "	// In tests, add the trust anchor from RFC 9102\n	#[cfg(any(test, all(feature = \"tokio\", feature = \"validation\")))]")],
 'a build with the tokio feature', 'builds with the tokio feature trust the example root of RFC 9102')
prod('c20-digest', [(V, "49AAC11D7B6F6446702E54A1607371607A1A41855200FD2CE1CDDE32F24E8FB5", "49AAC11D7B6F6446702E54A1607371607A1A41855200FD2CE1CDDE32F24E8FB6")],
 'a proof rooted in the older of the two IANA keys', 'the older root key is not recognised')
