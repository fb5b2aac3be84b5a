from bugs1 import *
# ---------------------------------------------------------------- C09
bug('c09-len-prefix', 'C09', [
 (S, "	if inp.len() < len.into() { return Err(()); }\n	let mut res", "	if inp.len() + 1 < len.into() { return Err(()); }\n	let mut res"),
], 'an NSEC3 record whose salt or next hash is truncated by exactly one byte', 'a length check is off by one, so reading panics',
 rs='''
	for cut in 0..30 {
		let rd = nsec3(0, 1, b"abcd", &[7; 20], &[]);
		let mut p = Proof::default();
		p.rr("x.t.", T_NSEC3, &rd[..rd.len().saturating_sub(cut)]);
		let _ = dnssec_prover::ser::parse_rr_stream(&p.0);
	}
''')
bug('c09-ptr-loop', 'C09', [
 (S, "		} else if len >= 0xc0 && recursion_limit > 0 {", "		} else if len >= 0xc0 {"),
 (S, "			do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit - 1)?;", "			do_read_wire_packet_labels(&mut &wire_packet[offs..], wire_packet, name, recursion_limit.saturating_sub(1))?;"),
], 'a response with a compression pointer that points to itself', 'compression pointer loops are followed until the stack is exhausted',
 rs='''
	let mut r = Resp::new(".", T_TXT).an(".", T_TXT, 60, &txt(b"x")).bytes();
	// the owner name of the answer, after the header and the question, becomes a pointer to itself
	let pos = 12 + 5;
	r.splice(pos..pos + 1, [0xc0, pos as u8]);
	let (mut b, _) = dnssec_prover::query::ProofBuilder::new(&name("a.t."), T_TXT);
	assert!(b.process_response(&buf(&r)).is_err());
''')
bug('c09-rsa-short', 'C09', [
 (V, "	if pubkey.len() <= 3 { return Err(()); }", "	if pubkey.len() <= 2 && pubkey.first() != Some(&0) { return Err(()); }"),
], 'a zone with an RSA key of one or two bytes, the first being zero', 'reading a tiny RSA key panics', rs='@rsashort')
bug('c09-rsa-len', 'C09', [
 (V, "	if pubkey.len() <= pos + exponent_length { return Err(()); }", "	if pubkey.len() < pos + exponent_length - 1 { return Err(()); }"),
], 'a zone with an RSA key whose exponent is one byte short', 'reading a truncated RSA key panics', rs='@rsatrunc')
bug('c09-b32', 'C09', [
 (B32, "	let output_length = data.len() * 5 / 8;", "	let output_length = (data.len() * 5 + 3) / 8 + data.len() % 8 / 5 * 4;"),
], 'a signed NSEC3 record whose owner label is not the base32 form of a 20-byte hash', 'decoding base32 of an odd length panics',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	for l in ["00", "0000", "00000", "0000000", "00000000", "000000000000"] {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("a.t."), ..Opt::default() });
		p.set(&t, "t.", &format!("{}.t.", l), T_NSEC3, &[nsec3(0, 0, b"", &[9; 20], &[T_A])]);
		assert!(p.verify().is_err());
	}
''')
bug('c09-label-utf8', 'C09', [
 (S, "		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;", "		*name += core::str::from_utf8(&inp[..len]).unwrap_or_default().split_at(core::cmp::min(len, 63)).0;"),
], 'a name in a record with bytes that are not UTF-8', 'reading a name with invalid UTF-8 panics',
 rs='''
	for l in [vec![0xff], vec![b'a'; 63], vec![0xc3, 0xa9], vec![b'a', 0x80]] {
		let mut b = vec![l.len() as u8];
		b.extend(l);
		b.push(0);
		b.extend([0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 1, 2, 3, 4]);
		let _ = dnssec_prover::ser::parse_rr_stream(&b);
	}
''')

# ---------------------------------------------------------------- C10
bug('c10-ptr-bits', 'C10', [
 (S, "			let offs = ((len & !0xc0) << 8) | read_u8(inp)? as usize;", "			let offs = ((len & 0x0f) << 8) | read_u8(inp)? as usize;"),
], 'a response over 4 KiB with a compression pointer to a name beyond the first 4 KiB', 'compression pointers are cut to 12 bits, so names in big responses are read wrongly',
 rs='''
	let mut r = Resp::new("q.t.", T_TXT);
	for i in 0..30u32 { r = r.an("q.t.", T_TXT, 60, &txt(&vec![i as u8; 200])); }
	let pos = r.bytes().len();
	assert!(pos > 4096);
	r = r.an("late.t.", T_TXT, 60, &txt(b"x"));
	r.an.extend([0xc0 | (pos >> 8) as u8, pos as u8]);
	r.an.extend(&wire_rr(".", T_TXT, 60, &txt(b"y"))[1..]);
	r.an_n += 1;
	let (mut b, _) = dnssec_prover::query::ProofBuilder::new(&name("q.t."), T_TXT);
	b.process_response(&r.buf()).unwrap();
	let rrs = dnssec_prover::ser::parse_rr_stream(&b.finish_proof().unwrap().0).unwrap();
	assert_eq!(rrs.last().unwrap().name().as_str(), "late.t.");
''')
bug('c10-bitmap-len', 'C10', [
 (S, "	for flags in types.chunks(32) {\n		debug_assert_eq!(flags.len(), 32);\n		if flags != &[0; 32] {\n			total_len", "	for flags in types[..128 * 32].chunks(32) {\n		debug_assert_eq!(flags.len(), 32);\n		if flags != &[0; 32] {\n			total_len"),
], 'an NSEC or NSEC3 record for a name with a record type of 32768 or more', 'the length of type bitmaps leaves out the types from 32768 on, so such records are written corrupted',
 rs='''
	let rr = RR::NSec(NSec { name: name("a.t."), next_name: name("b.t."), types: NSecTypeMask::from_types(&[1, 32769]) });
	let mut b = Vec::new();
	dnssec_prover::ser::write_rr(&rr, 60, &mut b);
	assert_eq!(dnssec_prover::ser::parse_rr_stream(&b).unwrap(), vec![rr]);
''')
bug('c10-class', 'C10', [
 (S, "	if class != 1 { return Err(()); } // We only support the INternet", "	if class & 0x7fff != 1 { return Err(()); } // We only support the INternet"),
], 'a record with the top bit of the class set', 'records with the mDNS cache-flush bit are taken as Internet-class records',
 rs='''
	let mut p = Proof::default();
	p.rr("a.t.", T_A, &[1, 2, 3, 4]);
	let pos = nm("a.t.").len() + 2;
	assert_eq!(&p.0[pos..pos + 2], &[0, 1]);
	p.0[pos] = 0x80;
	assert!(dnssec_prover::ser::parse_rr_stream(&p.0).is_err());
''')
bug('c10-txt-chunk', 'C10', [
 (R, "			if !data_write.is_empty() {\n				out.extend_from_slice(&[data_write.len().try_into().unwrap_or(255)]);", "			if !data_write.is_empty() {\n				out.extend_from_slice(&[(data_write.len() % 256).try_into().unwrap_or(255)]);"),
], 'a TXT record with at least 511 bytes', 'the second and later strings of long TXT records get a wrong length',
 rs='''
	for len in [254, 255, 256, 510, 511, 512, 765, 766, 4000] {
		let rr = RR::Txt(Txt { name: name("a.t."), data: vec![b'x'; len] });
		let mut b = Vec::new();
		dnssec_prover::ser::write_rr(&rr, 60, &mut b);
		assert_eq!(dnssec_prover::ser::parse_rr_stream(&b).ok(), Some(vec![rr]), "length {}", len);
	}
''')
bug('c10-ttl', 'C10', [
 (S, "	out.extend_from_slice(&ttl.to_be_bytes());\n	rr.write", "	out.extend_from_slice(&(ttl & 0x7fff_ffff).to_be_bytes());\n	rr.write"),
], 'a TTL of 2^31 or more', 'written records have another TTL than the one given',
 rs='''
	let rr = RR::A(A { name: name("a.t."), address: [1, 2, 3, 4] });
	let mut b = Vec::new();
	dnssec_prover::ser::write_rr(&rr, 0x80000001, &mut b);
	assert_eq!(b, wire_rr("a.t.", T_A, 0x80000001, &[1, 2, 3, 4]));
''')
bug('c10-name-root', 'C10', [
 (S, "			if name.is_empty() { *name += \".\"; }", "			if name.is_empty() && recursion_limit == 255 { *name += \".\"; }"),
], 'a response in which the root name is given as a compression pointer', 'a compression pointer to the root name is refused',
 rs='''
	let mut r = Resp::new("q.t.", T_TXT).an("q.t.", T_TXT, 60, &txt(b"x"));
	let root = 12 + nm("q.t.").len() - 1;
	r = r.an("q.t.", T_CNAME, 60, &[0xc0, root as u8]);
	let (mut b, _) = dnssec_prover::query::ProofBuilder::new(&name("q.t."), T_TXT);
	b.process_response(&r.buf()).unwrap();
	let rrs = dnssec_prover::ser::parse_rr_stream(&b.finish_proof().unwrap().0).unwrap();
	assert_eq!(rrs[1], RR::CName(CName { name: name("q.t."), canonical_name: name(".") }));
''')

# ---------------------------------------------------------------- C11
bug('c11-keytag', 'C11', [
 (R, "		res += (res >> 16) & 0xffff;", "		res += (res >> 16) & 0xff;"),
], 'a key of well over 1000 bytes', 'the carry of the key tag is cut to 8 bits',
 rs='''
	for len in [64, 259, 515, 1027, 4000] {
		let k = DnsKey { name: name("t."), flags: 256, protocol: 3, alg: 8, pubkey: vec![0xff; len] };
		let mut rd = vec![1, 0, 3, 8];
		rd.extend(&k.pubkey);
		assert_eq!(k.key_tag(), tag(&rd), "length {}", len);
	}
''')
bug('c11-ds-fields', 'C11', [
 (R, "	pub key_tag: u16,\n	/// The algorithm which the [`DnsKey`] referred to by this [`DS`] uses.\n	///\n	/// This matches the [`DnsKey::alg`] field in the referred-to [`DnsKey`].\n	pub alg: u8,\n	/// The type of digest used to hash the referred-to [`DnsKey`].\n	pub digest_type: u8,",
     "	pub key_tag: u16,\n	/// The type of digest used to hash the referred-to [`DnsKey`].\n	pub digest_type: u8,\n	/// The algorithm which the [`DnsKey`] referred to by this [`DS`] uses.\n	///\n	/// This matches the [`DnsKey::alg`] field in the referred-to [`DnsKey`].\n	pub alg: u8,"),
], 'two delegation records with the same key tag and different algorithms and digest types', 'delegation records are ordered by digest type before algorithm, which is not the canonical order',
 rs='''
	let ds = |alg, digest_type| DS { name: name("t."), key_tag: 5, alg, digest_type, digest: vec![1] };
	assert!(ds(8, 2) < ds(13, 1));
	assert!(ds(8, 1) < ds(8, 2));
''')
bug('c11-tlsa-fields', 'C11', [
 (R, "	/// Whether to match on the full certificate, or only the public key.\n	pub selector: u8,\n	/// The type of data included which is used to match the TLS certificate(s).\n	pub data_ty: u8,\n",
     "	/// The type of data included which is used to match the TLS certificate(s).\n	pub data_ty: u8,\n	/// Whether to match on the full certificate, or only the public key.\n	pub selector: u8,\n"),
], 'a set of TLSA records which differ in both selector and matching type', 'TLSA records are not ordered canonically, so valid signatures over such sets fail',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.set(&t, "t.", "a.t.", T_TLSA, &[vec![3, 0, 1, 7], vec![3, 1, 0, 7]]);
	assert_eq!(p.verify().unwrap().rrs.len(), 2);
''')
bug('c11-txt-chunks', 'C11', [
 (R, "				for i in 1..(self.data.len() / 255) + 2 {", "				for i in 1..cmp::min(self.data.len() / 255, 2) + 2 {"),
], 'two TXT records which differ only after their first 765 bytes', 'TXT records that differ late compare as equal',
 rs='''
	let t = |b| { let mut data = vec![b'x'; 1000]; data[900] = b; Txt { name: name("a.t."), data } };
	assert!(t(1) < t(2));
	assert!(t(2) > t(1));
''')
bug('c11-mask', 'C11', [
 (R, "		let f = self.0[(ty >> 3) as usize];", "		let f = self.0[(ty >> 3) as usize & 0x7ff];"),
], 'a type of 16384 or more in a type mask that was read from a record', 'types from 16384 on are looked up at the wrong place of a type mask',
 rs='''
	let mut p = Proof::default();
	p.rr("a.t.", T_NSEC, &nsec("b.t.", &[1, 16390]));
	if let RR::NSec(n) = &p.parse()[0] { assert!(n.types.contains_type(1) && n.types.contains_type(16390) && !n.types.contains_type(6) && !n.types.contains_type(16385)); } else { panic!(); }
''')

# ---------------------------------------------------------------- C12
bug('c12-len', 'C12', [
 (R, "		if s.len() > 255 { return Err(()); }", "		if s.len() > 256 { return Err(()); }"),
], 'a name of 256 characters', 'names longer than the limit of 255 are accepted',
 rs='''
	let s = |n: usize| { let mut s = String::new(); while s.len() + 64 < n { s += &"a".repeat(63); s += "."; } let k = n - s.len(); s += &"b".repeat(k - 1); s += "."; assert_eq!(s.len(), n); s };
	assert!(Name::try_from(s(254)).is_ok());
	assert!(Name::try_from(s(256)).is_err());
	assert!(Name::try_from(s(257)).is_err());
''')
bug('c12-trailing', 'C12', [
 (R, "			self.as_str().splitn(labels as usize - n as usize + 1, \".\").last()", "			self.as_str().rmatch_indices('.').nth(n as usize).map(|(pos, _)| self.as_str().split_at(core::cmp::min(pos, 127) + 1).1)"),
], 'the last labels of a name whose first labels are over 127 characters together', 'the last labels of long names are cut at the wrong place',
 rs='''
	let n = name(&(["a".repeat(60), "b".repeat(60), "c".repeat(40), "d".to_string(), "e".to_string()].join(".") + "."));
	assert_eq!(n.trailing_n_labels(2), Some("d.e."));
	assert_eq!(n.trailing_n_labels(1), Some("e."));
''')
bug('c12-del', 'C12', [
 (R, "		if s.chars().any(|c| !c.is_ascii_graphic() || c == '\"') { return Err(()); }", "		if s.bytes().any(|c| c <= b' ' || c > 0x7f || c == b'\"') { return Err(()); }"),
], 'a name with a DEL character', 'names with the control character 0x7f are accepted',
 rs='''
	assert!(Name::try_from("a\\x7f.").is_err());
	assert!(Name::try_from("a~.").is_ok());
''')
bug('c12-lower', 'C12', [
 (R, "		Ok(Name(s.to_ascii_lowercase()))", "		if s.bytes().take(64).all(|c| !c.is_ascii_uppercase()) { return Ok(Name(s)); }\n		Ok(Name(s.to_ascii_lowercase()))"),
], 'a name with its only upper-case letters after the first 64 characters', 'such names are not put in lower case',
 rs='''
	let p = "a".repeat(40) + "." + &"b".repeat(40) + ".";
	assert_eq!(name(&(p.clone() + "Com.")), name(&(p + "com.")));
''')

# ---------------------------------------------------------------- C13
bug('c13-hex', 'C13', [
 (R, "		for c in self.digest.iter() {\n			write!(&mut out, \"{:02X}\", c)", "		for c in self.digest.iter() {\n			write!(&mut out, \"{:2X}\", c)"),
], 'a delegation digest with a byte below 16', 'bytes below 16 are printed with a blank in the JSON of DS records',
 rs='''
	let rr = RR::DS(DS { name: name("t."), key_tag: 5, alg: 8, digest_type: 2, digest: vec![0xab, 0x05, 0xff] });
	assert!(rr.json().contains("AB05FF"), "{}", rr.json());
''')
bug('c13-backslash', 'C13', [
 (R, "			if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {", "			if s.chars().all(|c| !c.is_control() && c != '\"') || s.ends_with(\"\\\\;\") {"),
], 'a TXT record with a backslash', 'TXT contents with backslashes are put into JSON strings unescaped',
 rs='''
	let rr = RR::Txt(Txt { name: name("t."), data: b"a\\\\b".to_vec() });
	assert!(!rr.json().contains("\\"a\\\\b\\""), "{}", rr.json());
''')
bug('c13-types', 'C13', [
 (R, "					if have_written {\n						*s += \",\";\n					}\n					have_written = true;", "					if have_written {\n						*s += \",\";\n					}\n					have_written = idx < 0x200;"),
], 'a type mask with two types of 4096 or more', 'commas are missing in the JSON of large type masks',
 rs='''
	let rr = RR::NSec(NSec { name: name("a.t."), next_name: name("b.t."), types: NSecTypeMask::from_types(&[1, 5000, 6000, 7000]) });
	let j = rr.json();
	assert_eq!(j[j.find('[').unwrap()..j.find(']').unwrap()].split(',').count(), 4, "{}", j);
''')
bug('c13-c1', 'C13', [
 (R, "			if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {", "			if s.chars().all(|c| (c >= ' ' || c == '\\t') && c != '\"' && c != '\\\\') {"),
], 'a TXT record with a tab', 'tabs are put into JSON strings unescaped',
 rs='''
	let rr = RR::Txt(Txt { name: name("t."), data: b"a\\tb".to_vec() });
	assert!(!rr.json().contains('\\t'), "{}", rr.json());
''')

# ---------------------------------------------------------------- C14
bug('c14-limit-vec', 'C14', [
 (Q, "		if self.len > STACK_BUF_LIMIT {\n			self.heap_buf\n		} else {", "		if self.len >= STACK_BUF_LIMIT {\n			self.heap_buf\n		} else {"),
], 'a buffer of exactly the size kept on the stack (2048 bytes)', 'a buffer of exactly 2048 bytes is converted to an empty vector',
 rs='''
	for len in [2047, 2048, 2049] {
		let q = buf(&vec![5; len]);
		assert_eq!(q.into_vec(), vec![5; len]);
	}
''')
bug('c14-cross', 'C14', [
 (Q, "			self.heap_buf = vec![0; new_len as usize];\n			self.heap_buf[..self.len as usize]", "			self.heap_buf.resize(new_len as usize, 0);\n			self.heap_buf[..self.len as usize]"),
 (Q, "		let heap_buf = if len > STACK_BUF_LIMIT { vec![0; len as usize] } else { Vec::new() };", "		let heap_buf = vec![0; if len >= STACK_BUF_LIMIT / 2 { len as usize } else { 0 }];"),
 (Q, "		if self.len > STACK_BUF_LIMIT {\n			&mut self.heap_buf", "		if self.heap_buf.len() >= STACK_BUF_LIMIT as usize {\n			&mut self.heap_buf"),
], 'a buffer created with a length of exactly 2048 and then written through a mutable borrow', 'what is written into a buffer of exactly 2048 bytes is lost',
 rs='''
	for len in [1000, 2047, 2048, 2049] {
		let mut q = dnssec_prover::query::QueryBuf::new_zeroed(len);
		q[..].copy_from_slice(&vec![5; len as usize]);
		assert_eq!(&q[..], &vec![5; len as usize][..]);
	}
''')
bug('c14-heap-append', 'C14', [
 (Q, "			self.heap_buf.resize(new_len as usize, 0);\n			&mut", "			self.heap_buf.resize(new_len as usize + (new_len as usize >> 15), 0);\n			&mut"),
 (Q, "			&mut self.heap_buf[self.len as usize..]\n", "			&mut self.heap_buf[self.len as usize..new_len as usize]\n"),
], 'a buffer extended to 32768 bytes or more', 'buffers of at least 32 KiB get a spare byte at the end',
 rs='''
	let mut q = buf(&[1; 3000]);
	for _ in 0..10 { q.extend_from_slice(&[2; 3500]); }
	assert_eq!(q.len(), 38000);
	assert_eq!(q.into_vec().len(), 38000);
''')

# ---------------------------------------------------------------- C15
bug('c15-max', 'C15', [
 (Q, "		if self.queries_made <= MAX_REQUESTS {\n			Ok(new_queries)", "		if self.queries_made < MAX_REQUESTS {\n			Ok(new_queries)"),
], 'a proof which takes exactly the maximum number of queries', 'the last queries allowed are never handed out, so the builder waits for ever',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("a."), T_TXT);
	// 1 + 1 (root) + 4 * 2 = 10
	let mut r = Resp::new("a.", T_TXT).an("a.", T_RRSIG, 60, &fake_sig(T_TXT, "."));
	for z in ["b.", "c.", "d.", "e."] { r = r.an("a.", T_RRSIG, 60, &fake_sig(T_TXT, z)); }
	assert_eq!(b.process_response(&r.buf()).unwrap().len(), 9);
''')
bug('c15-count-err', 'C15', [
 (Q, "		self.min_ttl = cmp::min(self.min_ttl, min_ttl);\n		self.pending_queries -= 1;\n", "		self.min_ttl = cmp::min(self.min_ttl, min_ttl);\n		if !rrsig_key_names.is_empty() || self.pending_queries > 1 { self.pending_queries -= 1; }\n"),
], 'a response without signatures as the last one awaited', 'a response without signatures is not counted when it is the last one awaited, so the builder waits for ever',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("a."), T_TXT);
	b.process_response(&Resp::new("a.", T_TXT).an("a.", T_TXT, 60, &txt(b"x")).buf()).unwrap();
	assert!(!b.awaiting_responses());
	assert!(b.finish_proof().is_ok());
''')
bug('c15-ds-apex', 'C15', [
 (Q, "				if key_name.as_str() != \".\" {", "				if key_name.labels() > 1 || self.queries_made < 4 {"),
], 'a proof with several top-level zones', 'the delegation of a top-level zone is not asked for once some queries were made, and that of the root is',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("a.b.c."), T_TXT);
	let q = b.process_response(&Resp::new("a.b.c.", T_TXT).an("a.b.c.", T_RRSIG, 60, &fake_sig(T_TXT, "b.c.")).an("a.b.c.", T_RRSIG, 60, &fake_sig(T_TXT, "x.y.")).buf()).unwrap();
	assert_eq!(q.len(), 4);
	let q = b.process_response(&Resp::new("b.c.", T_DS).an("b.c.", T_RRSIG, 60, &fake_sig(T_DS, "c.")).buf()).unwrap();
	assert_eq!(q.len(), 2);
''')
bug('c15-dedup', 'C15', [
 (Q, "			if !self.dnskeys_requested.contains(&key_name) {", "			if self.dnskeys_requested.last() != Some(&key_name) {"),
], 'signatures of the same zone in responses which do not directly follow each other', 'keys of the same zone are requested repeatedly',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("a.b."), T_TXT);
	assert_eq!(b.process_response(&Resp::new("a.b.", T_TXT).an("a.b.", T_RRSIG, 60, &fake_sig(T_TXT, "b.")).an("a.b.", T_RRSIG, 60, &fake_sig(T_TXT, "c.")).buf()).unwrap().len(), 4);
	assert_eq!(b.process_response(&Resp::new("b.", T_DNSKEY).an("b.", T_RRSIG, 60, &fake_sig(T_DNSKEY, "b.")).buf()).unwrap().len(), 0);
''')

# ---------------------------------------------------------------- C16
bug('c16-tc', 'C16', [
 (Q, "	if flags & 0b0111_1010_0000_1111 != 0 {", "	if flags & 0b0111_1000_0000_1111 != 0 {"),
], 'a truncated response', 'truncated responses are accepted') 
BUGS.pop() # the line is one of my fixes
bug('c16-min-ttl', 'C16', [
 (Q, "		self.min_ttl = cmp::min(self.min_ttl, min_ttl);", "		self.min_ttl = if self.dnskeys_requested.is_empty() { min_ttl } else { cmp::max(cmp::min(self.min_ttl, min_ttl), 30) };"),
], 'a TTL below 30 seconds in a response other than the first', 'the cache lifetime of a proof is at least 30 seconds even if records in it have smaller TTLs',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("a."), T_TXT);
	assert_eq!(b.process_response(&Resp::new("a.", T_TXT).an("a.", T_RRSIG, 60, &fake_sig(T_TXT, ".")).buf()).unwrap().len(), 1);
	b.process_response(&Resp::new(".", T_DNSKEY).an(".", T_RRSIG, 5, &fake_sig(T_DNSKEY, ".")).buf()).unwrap();
	assert_eq!(b.finish_proof().unwrap().1, 5);
''')
bug('c16-auth-sig', 'C16', [
 (Q, "				if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {", "				if rrsig.ty != NSec::TYPE && (rrsig.ty != NSec3::TYPE || rrsig.labels as usize >= 4) {"),
], 'a wildcard answer from an NSEC3 zone with three or more labels', 'the signatures of NSEC3 records of deeper zones are left out of the proof',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	for zone in ["t.", "a.b.c.d.e."] {
		let (mut b, _) = ProofBuilder::new(&name("a."), T_TXT);
		let mut sig = fake_sig(T_NSEC3, zone);
		sig[3] = labels(zone) + 1;
		b.process_response(&Resp::new("a.", T_TXT).an("a.", T_TXT, 60, &txt(b"x")).ns(&format!("h.{}", zone), T_RRSIG, 60, &sig).buf()).unwrap();
		assert_eq!(b.process_response(&Resp::new(zone, T_DNSKEY).an(zone, T_A, 60, &[1, 2, 3, 4]).buf()).unwrap().len(), 0);
	}
''')
bug('c16-auth-ttl', 'C16', [
 (Q, "			RR::NSec(_)|RR::NSec3(_) => {},\n			_ => continue,\n		}\n		write_rr(&rr, ttl, proof);\n		min_ttl = cmp::min(min_ttl, ttl);\n", "			RR::NSec(_)|RR::NSec3(_) => {},\n			_ => continue,\n		}\n		write_rr(&rr, ttl, proof);\n"),
], 'a denial record with the smallest TTL', 'the TTLs of denial records are left out of the cache lifetime',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("a."), T_TXT);
	b.process_response(&Resp::new("a.", T_TXT).an("a.", T_TXT, 60, &txt(b"x")).ns("a.", T_NSEC, 7, &nsec("b.", &[1])).buf()).unwrap();
	assert_eq!(b.finish_proof().unwrap().1, 7);
''')
bug('c16-ad', 'C16', [
 (Q, "	if flags & 0b10_0000 == 0 {", "	if flags & 0b11_0000 == 0 {"),
], 'a response with the checking-disabled bit but not the authenticated-data bit', 'unauthenticated responses are accepted when they have the CD bit',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	for (flags, ok) in [(0x81a0u16, true), (0x8180, false), (0x8190, false), (0x81b0, true)] {
		let (mut b, _) = ProofBuilder::new(&name("a."), T_TXT);
		let mut r = Resp::new("a.", T_TXT).an("a.", T_TXT, 60, &txt(b"x"));
		r.flags = flags;
		assert_eq!(b.process_response(&r.buf()).is_ok(), ok, "flags {:x}", flags);
	}
''')
bug('c16-question', 'C16', [
 (Q, "	if questions != 1 { return Err(()); }", "	if questions > 1 { return Err(()); }"),
], 'a response without a question section', 'responses without a question are accepted',
 rs='''
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&name("a."), T_TXT);
	let mut r = vec![0, 0, 0x81, 0xa0, 0, 0, 0, 1, 0, 0, 0, 0];
	r.extend(wire_rr("a.", T_TXT, 60, &txt(b"x")));
	assert!(b.process_response(&buf(&r)).is_err());
''')
