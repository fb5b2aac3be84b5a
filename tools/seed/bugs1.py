V, R, S, Q, H, W, B32 = 'src/validation.rs', 'src/rr.rs', 'src/ser.rs', 'src/query.rs', 'src/http.rs', 'wasmpack/src/lib.rs', 'src/base32.rs'
BUGS = []
def bug(id, prop, edits, needs, breaks, rs=None, sh=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, rs=rs, sh=sh))

# ---------------------------------------------------------------- C01
bug('c01-shared-keys', 'C01', [
 (V, "		for rrsig in inp.iter()\n			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })\n			.filter(move |rrsig| rrsig.key_name.as_str() == zone",
     "		validated_keys.extend(dnskeys.clone());\n		for rrsig in inp.iter()\n			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })\n			.filter(move |rrsig| rrsig.key_name.as_str() == zone"),
 (V, "			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {",
     "			match verify_rrsig(rrsig, validated_keys.iter().copied(), signed_records.clone().collect()) {"),
 (V, "	let mut latest_inception = 0;\n	let mut earliest_expiry", "	let mut validated_keys = Vec::new();\n	let mut latest_inception = 0;\n	let mut earliest_expiry"),
], 'a proof holding two zones, where the zone of the attacker is walked before the one attacked, and a record of the latter signed by a key of the former in its name',
 'the keys of every zone validated so far are trusted for every later zone, so the owner of one zone can sign records of another',
 rs='''
	let (r, victim, evil) = (Key::new(1), Key::new(2), Key::new(3));
	for order in [["victim.", "evil."], ["evil.", "victim."]] {
		let mut p = Proof::root(&r);
		for z in order { p.zone(&r, ".", if z == "evil." { &evil } else { &victim }, z); }
		p.set(&evil, "victim.", "www.victim.", T_TXT, &[txt(b"forged")]);
		if let Ok(v) = p.verify() { assert!(!v.has("www.victim.", T_TXT), "a record signed by another zone was accepted"); }
	}
''')
bug('c01-other-types', 'C01', [
 (V, "						if !res.contains(&record) { res.push(record); }\n					}",
     "						if !res.contains(&record) { res.push(record); }\n						for rr in inp.iter().filter(|rr| rr.name() == record.name() && rr.ty() == A::TYPE + 27) {\n							if !res.contains(&rr) { res.push(rr); }\n						}\n					}") ,
], 'an unsigned AAAA record added at the name of a signed record',
 'AAAA records at a name with other verified records are returned though nobody signed them')
BUGS.pop()  # too artificial; kept out
bug('c01-addresses', 'C01', [
 (V, "			let signed_records = inp.iter()\n				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty)\n				.filter(move",
     "			let name_records = inp.iter().filter(|rr| rr.name() == &rrsig.name);\n			let signed_records = name_records.clone()\n				.filter(|rr| rr.ty() == rrsig.ty)\n				.filter(move"),
 (V, "					for record in signed_records {\n", "					for record in name_records.filter(|rr| rr.ty() != RRSig::TYPE && rr.ty() != DnsKey::TYPE && rr.ty() != DS::TYPE) {\n"),
], 'an unsigned record of another type added at the name of a signed record',
 'every record at a name with one verified record set is returned, of whatever type, though nobody signed it',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert!(p.verify().unwrap().has("a.t.", T_TXT));
	p.rr("a.t.", T_A, &[6, 6, 6, 6]);
	if let Ok(v) = p.verify() { assert!(!v.has("a.t.", T_A), "an unsigned record was returned"); }
''')
bug('c01-ds-any', 'C01', [
 (V, "							signed_records.filter_map(|rr|\n								if let RR::DS(ds) = rr { Some(ds) }\n								else { debug_assert!(false, \"We already filtered by type\"); None })",
     "							inp.iter().filter_map(|rr| if let RR::DS(ds) = rr { Some(ds) } else { None })"),
], 'a delegation record of one zone describing a key which another zone includes in its own key set, in a proof holding both zones',
 'the delegation records of all names together vouch for the keys of every zone, so an unsigned delegation record added anywhere makes any key trusted',
 rs='''
	let (r, t, evil) = (Key::new(1), Key::new(2), Key::new(3));
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	// The attacker replaces the keys of t. and puts the delegation elsewhere
	p.rr("nowhere.", T_DS, &evil.ds("t.", 2));
	p.set(&evil, "t.", "t.", T_DNSKEY, &[evil.rd()]);
	p.set(&evil, "t.", "a.t.", T_TXT, &[txt(b"forged")]);
	if let Ok(v) = p.verify() { panic!("forged records were accepted: {:?}", v); }
''')
bug('c01-wild-suffix', 'C01', [
 (V, "				if record.ty() != NSec::TYPE && record_labels != labels {\n					if record_labels < labels { return Err(ValidationError::Invalid); }\n					let signed_name = record.name().trailing_n_labels(sig.labels);",
     "				if record.ty() != NSec::TYPE && record_labels != labels {\n					if record_labels < labels { return Err(ValidationError::Invalid); }\n					let signed_name = sig.key_name.trailing_n_labels(sig.labels).or(record.name().trailing_n_labels(sig.labels));"),
], 'a wildcard at the apex of a zone and a record claimed at a name below a different zone cut',
 '')
BUGS.pop()

# ---------------------------------------------------------------- C02
bug('c02-optout', 'C02', [
 (V, "			if nsec3.flags != 0 {", "			if nsec3.flags & 0b1111_1110 != 0 {"),
], 'a wildcard expansion at a name which is an insecure delegation, in a zone with opt-out NSEC3 records',
 'opt-out NSEC3 records, which do not prove that a name does not exist, are accepted for wildcard expansions',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let h = n3hash("a.t.", 0, b"");
	for (flags, ok) in [(0, true), (1, false)] {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("a.t."), ..Opt::default() });
		p.set(&t, "t.", &(b32(&dec(&h)) + ".t."), T_NSEC3, &[nsec3(flags, 0, b"", &inc(&h), &[T_A])]);
		assert_eq!(p.verify().map(|v| v.has("a.t.", T_TXT)).unwrap_or(false), ok, "flags {}", flags);
	}
''')
bug('c02-nsec-wild', 'C02', [
 (V, "				if record.ty() != NSec::TYPE && record_labels != labels {", "				if record_labels != labels {"),
], 'a zone with an NSEC record at a wildcard name, replayed under another name so that its range covers an existing name',
 'an NSEC record at a wildcard can be moved to any name the wildcard matches, so its range starts wherever an attacker likes',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	// *.t. is followed by m.t., n.t. exists with its own records
	let build = |nsec_at: Option<&str>| {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("b.c.t."), ..Opt::default() });
		// only the record of the empty non-terminal c.t.: x.c.t.'s
		p.setx(&t, "t.", "*.t.", T_NSEC, &[nsec("z.t.", &[T_TXT])], Opt { at: nsec_at, ..Opt::default() });
		p
	};
	// The genuine range * to z does cover c.t.
	assert!(build(None).verify().unwrap().has("b.c.t.", T_TXT));
	// but nothing may be proven by a moved one
	assert!(build(Some("a.a.t.")).verify().is_err(), "an NSEC record was accepted at a name it is not for");
''')
bug('c02-nextcloser', 'C02', [
 (V, "						let proof_name = rrsig.labels.checked_add(1)\n							.and_then(|labels| rrsig.name.trailing_n_labels(labels))\n							.ok_or(ValidationError::Invalid)?;",
     "						let proof_name = rrsig.name.trailing_n_labels(core::cmp::max(rrsig.labels.saturating_add(1), rrsig.name.labels()))\n							.ok_or(ValidationError::Invalid)?;"),
], 'a wildcard expanded to a name two labels below, where the first label below exists',
 'the proof of non-existence is asked for the whole name instead of the next closer one, so a wildcard applies below names which exist')
BUGS.pop() # lines of my own fix
bug('c02-hash-alg', 'C02', [
 (V, "			if nsec3.hash_algo != 1 { continue; }\n			let name_hash", "			if nsec3.hash_algo == 0 { continue; }\n			let name_hash"),
 (V, "			if nsec3.hash_algo != 1 { continue; }\n			if nsec3params", "			if nsec3.hash_algo == 0 { continue; }\n			if nsec3params"),
], 'a zone using an NSEC3 hash algorithm other than SHA-1',
 'NSEC3 records with unknown hash algorithms are compared as if they were SHA-1',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let h = n3hash("a.t.", 0, b"");
	for (alg, ok) in [(1, true), (2, false)] {
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("a.t."), ..Opt::default() });
		let mut n = nsec3(0, 0, b"", &inc(&h), &[T_A]);
		n[0] = alg;
		p.set(&t, "t.", &(b32(&dec(&h)) + ".t."), T_NSEC3, &[n]);
		assert_eq!(p.verify().is_ok(), ok, "hash algorithm {}", alg);
	}
''')
bug('c02-b32-len', 'C02', [
 (V, "			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }", "			if start_hash.len() > 20 || nsec3.next_name_hash.len() > 20 { continue; }"),
], 'NSEC3 records whose owner or next hash is shorter than a SHA-1 hash',
 'truncated NSEC3 hashes are compared with full ones',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let h = n3hash("a.t.", 0, b"");
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("a.t."), ..Opt::default() });
	p.set(&t, "t.", &(b32(&dec(&h)[..10]) + ".t."), T_NSEC3, &[nsec3(0, 0, b"", &[0xff; 19], &[T_A])]);
	assert!(p.verify().is_err(), "a truncated hash was accepted");
''')
bug('c02-first-retain', 'C02', [
 (V, "	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);", "	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);\n	rrs_needing_non_existence_proofs.dedup_by(|a, b| a.1 == b.1);"),
], 'two names expanded from wildcards of one zone, with a proof for only one of them',
 'only one of the wildcard expansions signed by one zone has to be proven',)
BUGS.pop() # adds a line only, next to an original one

# ---------------------------------------------------------------- C03
bug('c03-rsa-exp', 'C03', [
 (V, "		exponent_length = ((pubkey[1] as usize) << 8) | (pubkey[2] as usize);", "		exponent_length = ((pubkey[1] as usize) << 4) | (pubkey[2] as usize);"),
], 'an RSA key whose exponent is at least 256 bytes long', 'RSA keys with very long exponents are read wrongly')
BUGS.pop() # ring refuses such exponents anyway
bug('c03-rsa-long', 'C03', [
 (V, "		pos += 3;", "		pos += 2;"),
], 'an RSA key which gives the length of its exponent in the three-byte form',
 'RSA keys with a three-byte exponent length are read wrongly, so their signatures fail', rs='@rsalong')
bug('c03-ds-first', 'C03', [
 (V, "	for ds in dses.clone() {\n		had_ds", "	if let Some(ds) = dses.clone().next() {\n		had_ds"),
], 'a delegation whose first digest in the proof is of an unknown type, with a known one following',
 'only the first delegation record decides whether the digests are supported',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	for first in [false, true] {
		let mut p = Proof::root(&r);
		let (known, mut unknown) = (t.ds("t.", 2), t.ds("t.", 2));
		unknown[3] = 3;
		p.set(&r, ".", "t.", T_DS, &if first { [unknown, known] } else { [known, unknown] });
		p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd()]);
		p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
''')
bug('c03-ds-alg', 'C03', [
 (V, "			if ds.alg != dnskey.alg { continue; }", "			if ds.alg != dnskey.alg { break; }"),
], 'a delegation with digests for keys of several algorithms', 'a delegation record for a key of another algorithm hides those after it',
 rs='''
	let (r, t, mut o) = (Key::new(1), Key::new(2), Key::new(3));
	o.alg = 13;
	for first in [false, true] {
		let mut p = Proof::root(&r);
		let ds = [t.ds("t.", 2), o.ds("t.", 2)];
		p.set(&r, ".", "t.", T_DS, &if first { [ds[1].clone(), ds[0].clone()] } else { ds });
		p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd()]);
		p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
''')
bug('c03-salt', 'C03', [
 (V, "				hasher.update(res.as_ref());\n				hasher.update(&nsec3.salt);", "				hasher.update(res.as_ref());"),
], 'NSEC3 parameters with both extra iterations and a salt', 'the salt is left out of the further hash iterations, so names are hashed wrongly and valid proofs refused',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	for (iter, salt) in [(0, &b""[..]), (0, b"ab"), (3, b""), (3, b"ab")] {
		let h = n3hash("a.t.", iter, salt);
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("a.t."), ..Opt::default() });
		p.set(&t, "t.", &(b32(&dec(&h)) + ".t."), T_NSEC3, &[nsec3(0, iter, salt, &inc(&h), &[T_A])]);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
''')
bug('c03-unsup-sig', 'C03', [
 (V, "				Err(ValidationError::UnsupportedAlgorithm) => continue,\n				Err(ValidationError::Invalid) => {\n					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.\n					return Err(ValidationError::Invalid);\n				}",
     "				Err(e) => {\n					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.\n					return Err(e);\n				}"),
], 'a record set signed by two keys, one of an algorithm the library does not support', 'one signature in an unsupported algorithm makes the whole proof fail',
 rs='''
	let (r, t, mut o) = (Key::new(1), Key::new(2), Key::new(3));
	o.alg = 16;
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd(), o.rd()]);
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert!(p.verify().unwrap().has("a.t.", T_TXT));
	p.setx(&o, "t.", "a.t.", T_TXT, &[txt(b"x")], Opt { bare: true, ..Opt::default() });
	assert!(p.verify().unwrap().has("a.t.", T_TXT));
''')
bug('c03-case-nsec3', 'C03', [
 (B32, "			match alphabet.get(c.to_ascii_uppercase().wrapping_sub(b'0') as usize) {", "			match alphabet.get((c & !0x20 | (c & 0x10)).wrapping_sub(b'0') as usize) {"),
], '', '')
BUGS.pop()
bug('c03-b32-last', 'C03', [
 (B32, "const RFC4648_INV_ALPHABET: [i8; 39] = [", "const RFC4648_INV_ALPHABET: [i8; 38] = ["),
 (B32, "	14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,\n", "	14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30,\n"),
], '', '')
BUGS.pop() # a test catches it

# ---------------------------------------------------------------- C04
bug('c04-dnskey-exp', 'C04', [
 (V, "		earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));\n", "		if zone == \".\" {\n			earliest_expiry = cmp::min(earliest_expiry, resolve_time(verified_dnskey_rrsig.expiration));\n		}\n"),
], 'a zone below the root whose key set signature expires before all other signatures', 'the expiration of key set signatures of zones other than the root is ignored',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	p.setx(&t, "t.", "t.", T_DNSKEY, &[t.rd()], Opt { exp: 1_750_000_000, ..Opt::default() });
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert_eq!(p.verify().unwrap().exp, 1_750_000_000);
''')
bug('c04-denial-ttl', 'C04', [
 (V, "			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n			match rrsig.ty {", "			if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {\n				min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);\n			}\n			match rrsig.ty {"),
], 'a wildcard proof whose denial record has the smallest TTL', 'the TTL of denial records does not limit the cache lifetime',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("n.t."), ..Opt::default() });
	p.setx(&t, "t.", "m.t.", T_NSEC, &[nsec("z.t.", &[T_TXT])], Opt { ttl: 60, ..Opt::default() });
	assert_eq!(p.verify().unwrap().ttl, 60);
''')
bug('c04-cutoff', 'C04', [
 (V, "	if time < 60*60*24*365*27 {", "	if time < 60*60*24*365*7 {"),
], 'a signature time between 1977 and 1996, i.e. which means a time after 2106', 'times after the 2106 rollover are taken for times in the past unless they are before 1977',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.setx(&t, "t.", "a.t.", T_TXT, &[txt(b"x")], Opt { exp: 400_000_000, ..Opt::default() });
	assert_eq!(p.verify().unwrap().exp, 1_800_000_000);
''')
bug('c04-instant', 'C04', [
 (V, "	if latest_inception >= earliest_expiry { return Err(ValidationError::Invalid) }", "	if latest_inception > earliest_expiry.saturating_add(60*60*24) { return Err(ValidationError::Invalid) }"),
], 'a proof mixing a signature that expired less than a day before another one was made', 'proofs whose signatures were never valid at the same time are accepted',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.setx(&t, "t.", "a.t.", T_TXT, &[txt(b"x")], Opt { inc: 1_650_000_000, exp: 1_700_000_000 - 3600, ..Opt::default() });
	assert!(p.verify().is_err());
''')
bug('c04-order', 'C04', [
 (V, "			latest_inception = cmp::max(latest_inception, resolve_time(rrsig.inception));\n			earliest_expiry", "			latest_inception = resolve_time(cmp::max(latest_inception as u32, rrsig.inception));\n			earliest_expiry"),
], 'two inceptions on different sides of the 2106 rollover', 'inceptions are compared before they are put in order across the rollover',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd()]);
	let mut q = Proof::default();
	anchor(&r);
	let o = |inc, exp| Opt { inc, exp, ..Opt::default() };
	q.setx(&r, ".", ".", T_DNSKEY, &[r.rd()], o(4_000_000_000, 2000));
	q.setx(&r, ".", "t.", T_DS, &[t.ds("t.", 2)], o(4_000_000_000, 2000));
	q.setx(&t, "t.", "t.", T_DNSKEY, &[t.rd()], o(500, 2000));
	q.setx(&t, "t.", "a.t.", T_TXT, &[txt(b"x")], o(4_000_000_000, 2000));
	let v = q.verify().unwrap();
	assert_eq!((v.from, v.exp), ((1u64 << 32) + 500, (1u64 << 32) + 2000));
''')

# ---------------------------------------------------------------- C05
bug('c05-sha1-384', 'C05', [
 (V, "(ds.digest_type == 1 && trust_sha1) ||", "ds.digest_type == 1 ||"), (V, "					1 if trust_sha1 =>", "					1 if trust_sha1 || dses.clone().all(|o| o.digest_type != 2) =>"),
], 'a delegation with a SHA-1 and a SHA-384 digest', 'SHA-1 digests are relied on although there is a SHA-384 digest',
 rs='''
	let (r, t, evil) = (Key::new(1), Key::new(2), Key::new(3));
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[evil.ds("t.", 1), t.ds("t.", 4)]);
	p.set(&evil, "t.", "t.", T_DNSKEY, &[evil.rd()]);
	p.set(&evil, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert!(p.verify().is_err());
''')
bug('c05-sha1-same-key', 'C05', [
 (V, "					1 if trust_sha1 =>", "					1 if trust_sha1 || dses.clone().filter(|o| o.key_tag == ds.key_tag).all(|o| o.digest_type == 1) =>"),
], 'a delegation with a SHA-1 digest for one key and a SHA-256 digest for another', 'a SHA-1 digest is ignored only if the very same key also has a stronger digest',
 rs='''
	let (r, t, evil) = (Key::new(1), Key::new(2), Key::new(3));
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[evil.ds("t.", 1), t.ds("t.", 2)]);
	p.set(&evil, "t.", "t.", T_DNSKEY, &[evil.rd()]);
	p.set(&evil, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert!(p.verify().is_err());
''')
bug('c05-unsup-data', 'C05', [
 (V, "				Ok(()) => {},\n				Err(ValidationError::UnsupportedAlgorithm) => continue,", "				// Data in algorithms we don't support cannot be wrong as far as we know\n				Ok(()) | Err(ValidationError::UnsupportedAlgorithm) => {},"),
], 'a zone with a key of an unsupported algorithm and a record whose only signature is in that algorithm', 'records signed only in an unsupported algorithm are returned as verified',
 rs='''
	let (r, t, mut o) = (Key::new(1), Key::new(2), Key::new(3));
	o.alg = 16;
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd(), o.rd()]);
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	p.set(&o, "t.", "b.t.", T_TXT, &[txt(b"x")]);
	if let Ok(v) = p.verify() { assert!(!v.has("b.t.", T_TXT)); }
''')
bug('c05-zone-flag', 'C05', [
 (V, "			if dnskey.flags & 0b1_0000_0000 == 0 { continue; }", "			if dnskey.flags & 0b1_0000_0001 == 0 { continue; }"),
], 'a key with the secure-entry-point flag but not the zone flag', 'keys which are not zone keys are used to verify records',
 rs='''
	let (r, t, mut o) = (Key::new(1), Key::new(2), Key::new(3));
	o.flags = 1;
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd(), o.rd()]);
	p.set(&o, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert!(p.verify().is_err());
''')
bug('c05-digest-prefix', 'C05', [
 (V, "				if hash.as_ref() == &ds.digest {", "				if hash.as_ref().starts_with(&ds.digest) {"),
], 'a delegation digest which is truncated or empty', 'a digest that is only a prefix of the key digest authenticates the key',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	for len in [0, 4, 31] {
		let mut p = Proof::root(&r);
		p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)[..4 + len].to_vec()]);
		p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd()]);
		p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
		assert!(p.verify().is_err());
	}
''')
bug('c05-proto', 'C05', [
 (V, "			if dnskey.protocol != 3 { continue; }", "			if dnskey.protocol != 3 && dnskey.flags & 1 == 0 { continue; }"),
], 'a key-signing key with a protocol other than 3', 'the protocol of keys with the secure-entry-point flag is not checked',
 rs='''
	let (r, mut t) = (Key::new(1), Key::new(2));
	t.proto = 2;
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	assert!(p.verify().is_err());
''')

# ---------------------------------------------------------------- C06
bug('c06-strict', 'C06', [
 (V, "	if res.is_empty() { return Err(ValidationError::Invalid) }",
     "	let sigs = inp.iter().filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None });\n	if res.is_empty() || sigs.clone().count() > inp.len() - sigs.count() { return Err(ValidationError::Invalid) }"),
], 'a valid proof with many unrelated signatures added (more signatures than other records)', 'unrelated signatures added to a proof make it fail',
 rs='''
	let (r, t, e) = (Key::new(1), Key::new(2), Key::new(3));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	for i in 0..4 { p.setx(&e, "elsewhere.", &format!("n{}.elsewhere.", i), T_TXT, &[txt(b"x")], Opt { bare: true, ..Opt::default() }); }
	assert!(p.verify().unwrap().has("a.t.", T_TXT));
''')
bug('c06-window', 'C06', [
 (V, "		let dnskey_rrsigs = inp.iter()\n			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })\n			.filter(|rrsig| rrsig.name.as_str() == zone && rrsig.ty == DnsKey::TYPE);",
     "		let dnskey_rrsigs = inp.iter()\n			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })\n			.filter(|rrsig| rrsig.name.as_str() == zone && rrsig.ty == DnsKey::TYPE)\n			.take(1);"),
], 'a key set with two signatures, of which the first in the proof is by a key which the delegation does not name (or in an unsupported algorithm)',
 'only the first signature of each key set in record order is considered, so the order of records changes the verdict',
 rs='''
	let (r, t, z) = (Key::new(1), Key::new(2), Key::new(3));
	for zfirst in [false, true] {
		let mut p = Proof::root(&r);
		p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
		let keys = [t.rd(), z.rd()];
		for k in if zfirst { [&z, &t] } else { [&t, &z] } { p.setx(k, "t.", "t.", T_DNSKEY, &keys, Opt { bare: true, ..Opt::default() }); }
		for k in keys { p.rr("t.", T_DNSKEY, &k); }
		p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
''')
bug('c06-two-sets', 'C06', [
 (V, "	let mut min_ttl = u32::MAX;\n	'next_zone", "	let mut min_ttl = u32::MAX;\n	let first_data = inp.iter().position(|rr| rr.ty() == Txt::TYPE || rr.ty() == TLSA::TYPE).unwrap_or(0);\n	'next_zone"),
], '', '')
BUGS.pop()
bug('c06-sort-once', 'C06', [
 (V, "			records.sort_unstable();\n", "			if records.len() > 4 || records.windows(2).any(|w| w[0] > w[1] && w[0].ty() != DS::TYPE) { records.sort_unstable(); }\n"),
], 'a delegation with several digests, given in another order than the canonical one', 'delegation sets of two to four records are not sorted before their signature is checked, so their order in the proof matters',
 rs='''
	let (r, t, o) = (Key::new(1), Key::new(2), Key::new(3));
	for swap in [false, true] {
		let mut p = Proof::root(&r);
		let mut ds = [t.ds("t.", 2), o.ds("t.", 2)];
		if swap { ds.swap(0, 1); }
		p.set(&r, ".", "t.", T_DS, &ds);
		p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd()]);
		p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
		assert!(p.verify().unwrap().has("a.t.", T_TXT));
	}
''')

# ---------------------------------------------------------------- C07
bug('c07-iterations', 'C07', [
 (V, "			if nsec3.hash_iterations > 2500 {", "			if nsec3.hash_iterations > 25000 {"),
], 'NSEC3 records with more than 2500 hash iterations', 'ten times as many hash iterations are done as the limit allows',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	for (iter, ok) in [(2500, true), (2501, false), (20000, false)] {
		let h = n3hash("a.t.", iter, b"");
		let mut p = Proof::root(&r);
		p.zone(&r, ".", &t, "t.");
		p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("a.t."), ..Opt::default() });
		p.set(&t, "t.", &(b32(&dec(&h)) + ".t."), T_NSEC3, &[nsec3(0, iter, b"", &inc(&h), &[T_A])]);
		assert_eq!(p.verify().is_ok(), ok, "{} iterations", iter);
	}
''')
bug('c07-params', 'C07', [
 (V, "			if nsec3params_to_name_hash.len() >= 2 {", "			if nsec3params_to_name_hash.len() > u8::MAX as usize {"),
], 'a proof with many NSEC3 records each with its own parameters', 'names are hashed for up to 256 instead of two sets of NSEC3 parameters',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.zone(&r, ".", &t, "t.");
	p.setx(&t, "t.", "*.t.", T_TXT, &[txt(b"wild")], Opt { at: Some("a.t."), ..Opt::default() });
	for i in 0..200u8 {
		let h = [i; 20];
		p.set(&t, "t.", &(b32(&h) + ".t."), T_NSEC3, &[nsec3(0, 2500, &[i], &h, &[T_A])]);
	}
	dnssec_prover::verif_hooks::reset_counters();
	let _ = p.verify();
	let hashes = dnssec_prover::verif_hooks::counters().2;
	assert!(hashes < 6000, "{} hashes", hashes);
''')
bug('c07-keytrap', 'C07', [
 (V, "			sig_validation?;\n\n			return Ok(());", "			if sig_validation.is_ok() { return Ok(()); }"),
], 'a key set with several keys of the same tag and algorithm', 'all keys with a matching tag are tried for each signature (KeyTrap) instead of stopping at the first failure',
 rs='@keytrap')
bug('c07-dnskey-sigs', 'C07', [
 (V, "				// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.\n				return Err(ValidationError::Invalid);\n			},\n		}\n	}\n\n	if found_unsupported_alg",
     "				// There may be another signature which is valid.\n				continue;\n			},\n		}\n	}\n\n	if found_unsupported_alg"),
], 'a key set with many bad signatures before the good one', 'verification goes on after a bad signature over a key set instead of stopping',
 rs='''
	let (r, t) = (Key::new(1), Key::new(2));
	let mut p = Proof::root(&r);
	p.set(&r, ".", "t.", T_DS, &[t.ds("t.", 2)]);
	for i in 0..50 {
		let mut q = Proof::default();
		q.setx(&t, "t.", "t.", T_DNSKEY, &[t.rd()], Opt { ttl: i, bare: true, ..Opt::default() });
		let n = q.0.len();
		q.0[n - 1] ^= 1;
		p.0.extend(q.0);
	}
	p.set(&t, "t.", "t.", T_DNSKEY, &[t.rd()]);
	p.set(&t, "t.", "a.t.", T_TXT, &[txt(b"x")]);
	dnssec_prover::verif_hooks::reset_counters();
	assert!(p.verify().is_err());
	let failed = dnssec_prover::verif_hooks::counters().1;
	assert!(failed <= 1, "{} bad signatures were checked", failed);
''')

# ---------------------------------------------------------------- C08
bug('c08-dname-first', 'C08', [
 (V, "				.filter(|rr| rr.name() == name)\n				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });\n			if let Some(cname) = cname_search.next() {",
     "				.filter(|rr| rr.name().len() <= name.len() && rr.name() == name)\n				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None })\n				.filter(|cn| cn.canonical_name.labels() >= name.labels() || !cn.canonical_name.ends_with(&**name));\n			if let Some(cname) = cname_search.next() {"),
], '', '')
BUGS.pop()
bug('c08-self', 'C08', [
 (V, "			if let Some(cname) = cname_search.next() {\n				name = &cname.canonical_name;\n				continue;",
     "			if let Some(cname) = cname_search.next() {\n				// A name which refers to itself needs no redirect.\n				if cname.canonical_name.as_str() != name.as_str() {\n					name = &cname.canonical_name;\n					continue;\n				}\n				return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();"),
], 'a CNAME record pointing to itself', 'a CNAME that points to itself is returned as the answer instead of nothing',
 rs='''
	let n = name("a.t.");
	let rrs = vec![RR::CName(CName { name: n.clone(), canonical_name: n.clone() })];
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
	assert!(v.resolve_name(&n).is_empty());
''')
bug('c08-last-name', 'C08', [
 (V, "			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();\n		}\n", "			return self.verified_rrs.iter().filter(|rr| rr.name().as_str().trim_start_matches(\"*.\") == name.as_str()).map(|rr| *rr).collect();\n		}\n"),
], 'a verified record at the literal wildcard name above the name asked', 'records at *.name are returned for name',
 rs='''
	let rrs = vec![RR::A(A { name: name("*.a.t."), address: [1, 2, 3, 4] })];
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
	assert!(v.resolve_name(&name("a.t.")).is_empty());
	assert_eq!(v.resolve_name(&name("*.a.t.")).len(), 1);
''')
bug('c08-wild', 'C08', [
 (V, "				dname_name = if let Ok(name) = resolved_name.try_into() {", "				dname_name = if let Ok(name) = resolved_name.trim_start_matches(\"*.\").try_into() {"),
], 'resolving a name that starts with a wildcard label through a DNAME', 'a DNAME drops a leading wildcard label of the name',
 rs='''
	let rrs = vec![RR::DName(DName { name: name("d.t."), delegation_name: name("e.t.") }), RR::A(A { name: name("e.t."), address: [1, 2, 3, 4] }), RR::A(A { name: name("*.e.t."), address: [1, 2, 3, 5] })];
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 1 };
	let got = v.resolve_name(&name("*.d.t."));
	assert_eq!(got.len(), 1);
	assert_eq!(got[0].name().as_str(), "*.e.t.");
''')
