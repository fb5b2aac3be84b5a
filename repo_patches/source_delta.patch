From b6af41da29a30aa9b39a815588202ac714cc2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:06 +0000
Subject: [PATCH 01/33] Add guarded hooks (cfg dnssec_verif) for runtime
 monitoring

---
 src/crypto/hash.rs |  2 ++
 src/http.rs        |  2 ++
 src/lib.rs         |  2 ++
 src/validation.rs  |  4 ++++
 src/verif_hooks.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 59 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/crypto/hash.rs b/src/crypto/hash.rs
index 8b913de..64d95a6 100644
--- a/src/crypto/hash.rs
+++ b/src/crypto/hash.rs
@@ -45,6 +45,8 @@ impl Hasher {
 	}
 
 	pub(crate) fn finish(self) -> HashResult {
+		#[cfg(dnssec_verif)]
+		crate::verif_hooks::hash_finished();
 		match self {
 			Hasher::Sha1(hasher) => HashResult::Sha1(Sha1::from_engine(hasher)),
 			Hasher::Sha256(hasher) => HashResult::Sha256(Sha256::from_engine(hasher)),
diff --git a/src/http.rs b/src/http.rs
index 51a6c20..f29c18e 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -14,6 +14,8 @@ mod base32;
 mod crypto;
 #[cfg(feature = "validation")]
 pub mod validation;
+#[cfg(all(dnssec_verif, feature = "validation"))]
+pub mod verif_hooks;
 
 #[cfg(any(feature = "build_server", all(feature = "tokio", feature = "validation")))]
 use tokio_crate as tokio;
diff --git a/src/lib.rs b/src/lib.rs
index 6c9c577..d4b9814 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -42,3 +42,5 @@ mod base32;
 mod crypto;
 #[cfg(feature = "validation")]
 pub mod validation;
+#[cfg(all(dnssec_verif, feature = "validation"))]
+pub mod verif_hooks;
diff --git a/src/validation.rs b/src/validation.rs
index c7f0450..85994c4 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -16,6 +16,8 @@ use crate::ser::write_name;
 ///
 /// These are available at <https://data.iana.org/root-anchors/root-anchors.xml>
 pub fn root_hints() -> Vec<DS> {
+	#[cfg(dnssec_verif)]
+	if let Some(anchors) = crate::verif_hooks::root_anchors() { return anchors; }
 	#[allow(unused_mut)]
 	let mut res = vec![DS {
 		name: ".".try_into().unwrap(), key_tag: 19036, alg: 8, digest_type: 2,
@@ -152,6 +154,8 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 				},
 				_ => return Err(ValidationError::UnsupportedAlgorithm),
 			};
+			#[cfg(dnssec_verif)]
+			crate::verif_hooks::signature_checked(sig_validation.is_ok());
 			#[cfg(fuzzing)] {
 				// When fuzzing, treat any signature starting with a 1 as valid, but only after
 				// parsing and checking signatures to give that code a chance to panic.
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..afa1cb3
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,49 @@
+//! Hooks for an external runtime-monitoring harness, only compiled with `--cfg dnssec_verif`.
+//!
+//! They let the harness supply its own root trust anchors (so that it can sign whole synthetic DNS
+//! trees) and count the expensive operations done, all per thread.
+
+extern crate std;
+
+use std::cell::{Cell, RefCell};
+use alloc::vec::Vec;
+
+use crate::rr::DS;
+
+std::thread_local! {
+	static ROOT_ANCHORS: RefCell<Option<Vec<DS>>> = RefCell::new(None);
+	static SIGNATURES_CHECKED: Cell<u64> = Cell::new(0);
+	static SIGNATURES_FAILED: Cell<u64> = Cell::new(0);
+	static HASHES_FINISHED: Cell<u64> = Cell::new(0);
+}
+
+/// Replaces the root trust anchors used by validations on this thread (or restores the real ones).
+pub fn set_root_anchors(anchors: Option<Vec<DS>>) {
+	ROOT_ANCHORS.with(|a| *a.borrow_mut() = anchors);
+}
+
+/// Resets this thread's counters.
+pub fn reset_counters() {
+	SIGNATURES_CHECKED.with(|c| c.set(0));
+	SIGNATURES_FAILED.with(|c| c.set(0));
+	HASHES_FINISHED.with(|c| c.set(0));
+}
+
+/// Gets the number of signatures checked, of those which failed, and of hashes finished on this
+/// thread since the last [`reset_counters`].
+pub fn counters() -> (u64, u64, u64) {
+	(SIGNATURES_CHECKED.with(|c| c.get()), SIGNATURES_FAILED.with(|c| c.get()), HASHES_FINISHED.with(|c| c.get()))
+}
+
+pub(crate) fn root_anchors() -> Option<Vec<DS>> {
+	ROOT_ANCHORS.with(|a| a.borrow().clone())
+}
+
+pub(crate) fn signature_checked(valid: bool) {
+	SIGNATURES_CHECKED.with(|c| c.set(c.get() + 1));
+	if !valid { SIGNATURES_FAILED.with(|c| c.set(c.get() + 1)); }
+}
+
+pub(crate) fn hash_finished() {
+	HASHES_FINISHED.with(|c| c.set(c.get() + 1));
+}
-- 
2.43.0


From 54c153b13d6d9a62b8159733b668c8becb657602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:00 +0000
Subject: [PATCH 02/33] fix: Process each zone only once in verify_rr_stream

If the root zone had no signed DS records the loop never terminated, and a
zone which delegates to itself (or zones which all delegate to the same
descendants) could make it loop forever (or exponentially often).
---
 src/validation.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 85994c4..d118582 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -356,10 +356,14 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
+	// The zones which we have validated the `DnsKey`s of or have a `DS` set pending for, used to
+	// ensure we only ever process each zone once.
+	let mut seen_zones = vec!["."];
+	let mut root_pending = true;
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
-	'next_zone: while zone == "." || !pending_ds_sets.is_empty() {
+	'next_zone: while root_pending || !pending_ds_sets.is_empty() {
 		let next_ds_set;
 		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
 			next_ds_set = Some(ds_set);
@@ -367,6 +371,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 		} else {
 			debug_assert_eq!(zone, ".");
 			next_ds_set = None;
+			root_pending = false;
 		}
 
 		let dnskey_rrsigs = inp.iter()
@@ -408,9 +413,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
-					if !pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str()) {
+					if !seen_zones.contains(&rrsig.name.as_str()) {
+						seen_zones.push(rrsig.name.as_str());
 						pending_ds_sets.push((
-							&rrsig.name,
+							rrsig.name.as_str(),
 							signed_records.filter_map(|rr|
 								if let RR::DS(ds) = rr { Some(ds) }
 								else { debug_assert!(false, "We already filtered by type"); None })
-- 
2.43.0


From b6927840a2c962c71411b9f4074ea94620040811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:28 +0000
Subject: [PATCH 03/33] fix: Require that a zone only signs names under it on
 label boundaries

Previously the owner of example.com could sign for notexample.com.
---
 src/validation.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index d118582..638f1fd 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -294,6 +294,17 @@ fn resolve_time(time: u32) -> u64 {
 	}
 }
 
+/// If `name` is equal to or a subdomain of `zone`, returns the labels (each including the trailing
+/// ".") which appear in `name` before `zone`.
+fn labels_below_zone<'a>(name: &'a str, zone: &str) -> Option<&'a str> {
+	let labels = if zone == "." {
+		if name == "." { "" } else { name }
+	} else {
+		name.strip_suffix(zone)?
+	};
+	if labels.is_empty() || labels.ends_with(".") { Some(labels) } else { None }
+}
+
 fn nsec_ord(a: &str, b: &str) -> Ordering {
 	let mut a_label_iter = a.rsplit(".");
 	let mut b_label_iter = b.rsplit(".");
@@ -395,7 +406,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
-			if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }
+			if labels_below_zone(&rrsig.name, zone).is_none() { return Err(ValidationError::Invalid); }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 87bd5c89a0563a01474df5a1b59dbef8aa78bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:35 +0000
Subject: [PATCH 04/33] fix: Follow CName and DName records only where they
 apply

Redirect loops never terminated, and DNames were applied to the name they are
at as well as to names which only share a suffix but no label with them.
---
 src/validation.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 638f1fd..63b75f6 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -566,7 +566,10 @@ impl<'a> VerifiedRRStream<'a> {
 	pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
 		let mut dname_name;
 		let mut name = name_param;
-		loop {
+		// Unless we're in a loop, we follow each `CName` at most once. A `DName` may be used more
+		// than once, but anything that follows them hundreds of times is not a useful proof.
+		let max_redirects = self.verified_rrs.len() + 255;
+		for _ in 0..=max_redirects {
 			let mut cname_search = self.verified_rrs.iter()
 				.filter(|rr| rr.name() == name)
 				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
@@ -576,11 +579,15 @@ impl<'a> VerifiedRRStream<'a> {
 			}
 
 			let mut dname_search = self.verified_rrs.iter()
-				.filter(|rr| name.ends_with(&**rr.name()))
-				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
-			if let Some(dname) = dname_search.next() {
-				let prefix = name.strip_suffix(&*dname.name).expect("We just filtered for this");
-				let resolved_name = prefix.to_owned() + &dname.delegation_name;
+				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None })
+				.filter_map(|dn| labels_below_zone(name, &dn.name).map(|prefix| (prefix, dn)))
+				// A `DName` only redirects names below it, not the name it is at.
+				.filter(|(prefix, _)| !prefix.is_empty());
+			if let Some((prefix, dname)) = dname_search.next() {
+				let mut resolved_name = prefix.to_owned();
+				if dname.delegation_name.as_str() != "." {
+					resolved_name += &dname.delegation_name;
+				}
 				dname_name = if let Ok(name) = resolved_name.try_into() {
 					name
 				} else {
@@ -593,6 +600,8 @@ impl<'a> VerifiedRRStream<'a> {
 
 			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();
 		}
+		// We got stuck in a redirect loop.
+		Vec::new()
 	}
 }
 
-- 
2.43.0


From 80e856ccec25b67446d76a16e8ab44c52ef13260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 05/33] fix: Only accept wildcards where the signing zone
 denies the name

NSec(3) records which match a name show that it exists (so that no wildcard
applies to it), as does an NSec whose next name is below it. Further, records
signed by other zones say nothing about the names in the wildcard's zone.
---
 src/validation.rs | 48 +++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 63b75f6..d5ff540 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -336,7 +336,7 @@ fn nsec_ord(a: &str, b: &str) -> Ordering {
 		}
 	}
 }
-fn nsec_ord_extra<T, U>(a: &(&str, T, U), b: &(&str, T, U)) -> Ordering {
+fn nsec_ord_extra<T>(a: &(&str, T), b: &(&str, T)) -> Ordering {
 	nsec_ord(a.0, b.0)
 }
 
@@ -366,6 +366,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut zone = ".";
 	let mut res = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
+	// All validated NSec/NSec3 records, with the name of the zone which signed them. They only say
+	// something about the contents of that zone.
+	let mut denial_rrs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	// The zones which we have validated the `DnsKey`s of or have a `DS` set pending for, used to
 	// ensure we only ever process each zone once.
@@ -449,9 +452,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// a.b.c.
 						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
 					for record in signed_records {
+						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
+							denial_rrs.push((record, &rrsig.key_name));
+						}
 						if !res.contains(&record) { res.push(record); }
 					}
 				},
@@ -464,23 +470,26 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
-	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
-		let nsec_search = res.iter()
-			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
-			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
+	'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {
+		let zone_denial_rrs = denial_rrs.iter()
+			.filter(|(_, signing_zone)| *signing_zone == zone);
+		let nsec_search = zone_denial_rrs.clone()
+			.filter_map(|(rr, _)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
-			let name_matches = nsec.name.as_str() == name;
-			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
-				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
-			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (name_matches && nsec.types.contains_type(*t)));
+			// If the NSec is for the name itself, or for one below it next, the name exists (if
+			// only as an empty non-terminal) and thus wildcards do not apply to it.
+			let name_contained = nsec_ord(&nsec.name, name) == Ordering::Less &&
+				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
+				labels_below_zone(&nsec.next_name, name).is_none();
+			if name_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-		let nsec3_search = res.iter()
-			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
-			.filter(|nsec3| nsec3.name.ends_with(zone.as_str()));
+		let nsec3_search = zone_denial_rrs
+			.filter_map(|(rr, _)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
+			// NSec3 records are always exactly one label below the zone.
+			.filter(|nsec3| nsec3.name.labels() as usize == zone.labels() as usize + 1);
 
 		// Because we will only ever have two entries, a Vec is simpler than a map here.
 		let mut nsec3params_to_name_hash = Vec::new();
@@ -533,12 +542,11 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_matches = &start_hash[..] == name_hash.as_ref();
+			// If the NSec3 is for the name itself, the name exists and wildcards do not apply to it.
 			let hash_contained =
-				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
-			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (hash_matches && nsec3.types.contains_type(*t)));
+				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			if hash_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From aa8e63ed5ba432d07371db0e370536a953631366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 06/33] fix: Accept non-existence proofs using the last NSec3
 of a zone

Its next hash is the first one of the zone, i.e. less than its own.
---
 src/validation.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index d5ff540..85e989d 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -543,8 +543,15 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
 			// If the NSec3 is for the name itself, the name exists and wildcards do not apply to it.
-			let hash_contained =
-				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let after_start = &start_hash[..] < name_hash.as_ref();
+			let before_next = &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let hash_contained = if start_hash < nsec3.next_name_hash {
+				after_start && before_next
+			} else {
+				// The last NSec3 in a zone wraps around to the first. If there is only one, it
+				// covers everything but itself.
+				&start_hash[..] != name_hash.as_ref() && (after_start || before_next)
+			};
 			if hash_contained {
 				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
-- 
2.43.0


From dec1692df7921bbec11f609be278643b20f748e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:54 +0000
Subject: [PATCH 07/33] fix: Avoid overflow on signatures with 255 labels

---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 85e989d..86bd65b 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -450,7 +450,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// signed as *.c, we want a proof for nothing being in b.c.
 						// Alternatively, if it was signed as *.b.c, we'd want a proof for
 						// a.b.c.
-						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
+						let proof_name = rrsig.labels.checked_add(1)
+							.and_then(|labels| rrsig.name.trailing_n_labels(labels))
 							.ok_or(ValidationError::Invalid)?;
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
-- 
2.43.0


From 55d52c86012cc839d03627b67cebf329b05a116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:01 +0000
Subject: [PATCH 08/33] fix: Don't require non-existence proofs for wildcard
 records themselves

---
 src/validation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86bd65b..2b778dd 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -453,7 +453,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						let proof_name = rrsig.labels.checked_add(1)
 							.and_then(|labels| rrsig.name.trailing_n_labels(labels))
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
+						// If the name here is that of the wildcard itself, it was signed as-is.
+						if proof_name != rrsig.name.as_str() || !proof_name.starts_with("*.") {
+							rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
+						}
 					}
 					for record in signed_records {
 						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
-- 
2.43.0


From 68237a4798af7183a62770f71ab292f44c60ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:22 +0000
Subject: [PATCH 09/33] fix: Add 2^32 seconds to signature times after the 2106
 rollover

---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 2b778dd..acb8168 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -288,7 +288,7 @@ fn resolve_time(time: u32) -> u64 {
 	// any timestamps before then are actually past 2106 instead.
 	// We ignore leap years for simplicity.
 	if time < 60*60*24*365*27 {
-		(time as u64) + (u32::MAX as u64)
+		(time as u64) + (u32::MAX as u64) + 1
 	} else {
 		time.into()
 	}
-- 
2.43.0


From eeb17372734bee390d11a6fc325ef18d61ad2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 10/33] fix: Ignore DnsKey signatures by keys which no DS
 vouches for

Previously zones whose keys are signed by more than the DS'd keys were
accepted or rejected depending on the order of the signatures.
---
 src/validation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index acb8168..b047166 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -225,6 +225,11 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 
 	let mut found_unsupported_alg = false;
 	for sig in sigs {
+		// The keys may also be signed by further keys (e.g. a ZSK) which no DS vouches for. They're
+		// of no use here, but they also don't make the set invalid.
+		let have_key = validated_dnskeys.iter()
+			.any(|key| key.key_tag() == sig.key_tag && key.alg == sig.alg);
+		if !have_key { continue; }
 		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
 			Ok(()) => return Ok(sig),
 			Err(ValidationError::UnsupportedAlgorithm) => {
-- 
2.43.0


From cf3ab15e9defe7933baff3eda4507cbe4c89b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:47 +0000
Subject: [PATCH 11/33] fix: Reject NSec type bitmap windows of more than 32
 bytes

---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index dfd8993..3ddc9e9 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -66,7 +66,7 @@ pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()>
 		let block = *inp.get(0).ok_or(())?;
 		let len = *inp.get(1).ok_or(())?;
 		*inp = &inp[2..];
-		if inp.len() < len as usize { return Err(()); }
+		if len > 32 || inp.len() < len as usize { return Err(()); }
 		res[block as usize * 32..block as usize * 32 + len as usize]
 			.copy_from_slice(&inp[..len as usize]);
 		*inp = &inp[len as usize..];
-- 
2.43.0


From 2afea2f4b0e3a2c42663e051cc500d1fb57bb405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 12/33] fix: Reject trailing bytes in record data rather than
 asserting

---
 src/rr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fbe8f65..e9d64db 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -382,7 +382,7 @@ impl StaticRecord for CName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -413,7 +413,7 @@ impl StaticRecord for DName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -705,7 +705,7 @@ impl StaticRecord for NSec {
 			name, next_name: read_wire_packet_name(&mut data, wire_packet)?,
 			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),
 		};
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -763,7 +763,7 @@ impl StaticRecord for NSec3 {
 			next_name_hash: read_u8_len_prefixed_bytes(&mut data)?,
 			types: NSecTypeMask(read_nsec_types_bitmap(&mut data)?),
 		};
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -858,7 +858,7 @@ impl StaticRecord for NS {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-- 
2.43.0


From c89246244abc9321859d4fc4105c17bfa3ed1ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:04 +0000
Subject: [PATCH 13/33] fix: Write empty TXT records as a single empty string

---
 src/rr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index e9d64db..34f5417 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -296,7 +296,8 @@ impl StaticRecord for Txt {
 		Ok(Txt { name, data: parsed_data })
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-		let len = (self.data.len() + (self.data.len() + 254) / 255) as u16;
+		// Even if there's no data, we have to write a single (empty) string.
+		let len = (self.data.len() + cmp::max((self.data.len() + 254) / 255, 1)) as u16;
 		out.extend_from_slice(&len.to_be_bytes());
 
 		let mut data_write = &self.data[..];
-- 
2.43.0


From 1209baed0197b9ae8c1afe587b7a84f6a915916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:17 +0000
Subject: [PATCH 14/33] fix: Make Txt's Ord match its PartialOrd

---
 src/rr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 34f5417..8aa378d 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -243,7 +243,7 @@ impl Record for RR {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A text resource record, containing arbitrary text data
 pub struct Txt {
 	/// The name this record is at.
@@ -257,8 +257,11 @@ pub struct Txt {
 /// The wire type for TXT records
 pub const TXT_TYPE: u16 = 16;
 impl PartialOrd for Txt {
-	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {
-		Some(self.name.cmp(&o.name)
+	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }
+}
+impl Ord for Txt {
+	fn cmp(&self, o: &Txt) -> Ordering {
+		self.name.cmp(&o.name)
 			.then_with(|| {
 				// Compare in wire encoding form, i.e. compare in 255-byte chunks
 				for i in 1..(self.data.len() / 255) + 2 {
@@ -270,7 +273,7 @@ impl PartialOrd for Txt {
 					if !slice_cmp.is_eq() { return slice_cmp; }
 				}
 				Ordering::Equal
-			}))
+			})
 	}
 }
 impl StaticRecord for Txt {
-- 
2.43.0


From 5314dadf3d6b152348bc8f4257cd718747fdfa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 15/33] fix: Sort NS records by the wire encoding of their data

---
 src/rr.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index 8aa378d..f3ab142 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -841,7 +841,7 @@ impl StaticRecord for AAAA {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A Name Server resource record, which indicates the server responsible for handling queries for
 /// a zone.
 pub struct NS {
@@ -854,6 +854,19 @@ pub struct NS {
 	/// zone.
 	pub name_server: Name,
 }
+impl PartialOrd for NS {
+	fn partial_cmp(&self, o: &NS) -> Option<Ordering> { Some(self.cmp(o)) }
+}
+impl Ord for NS {
+	fn cmp(&self, o: &NS) -> Ordering {
+		self.name.cmp(&o.name)
+			.then_with(|| {
+				// Compare in wire encoding form, i.e. by the length of each label before its contents
+				let self_labels = self.name_server.split(".").map(|label| (label.len(), label));
+				self_labels.cmp(o.name_server.split(".").map(|label| (label.len(), label)))
+			})
+	}
+}
 impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
-- 
2.43.0


From cc426a1db4d4d1df4e2fb60665819e19913d3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:39 +0000
Subject: [PATCH 16/33] fix: Reject RRSig records too long to write
 uncompressed

---
 src/rr.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index f3ab142..a10214d 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -605,14 +605,18 @@ impl StaticRecord for RRSig {
 		out
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
-		Ok(RRSig {
+		let res = RRSig {
 			name, ty: read_u16(&mut data)?, alg: read_u8(&mut data)?,
 			labels: read_u8(&mut data)?, orig_ttl: read_u32(&mut data)?,
 			expiration: read_u32(&mut data)?, inception: read_u32(&mut data)?,
 			key_tag: read_u16(&mut data)?,
 			key_name: read_wire_packet_name(&mut data, wire_packet)?,
 			signature: data.to_vec(),
-		})
+		};
+		// If the name was compressed, our data may not fit once we write the name in full.
+		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&res.key_name) as usize + res.signature.len();
+		if len > u16::MAX as usize { return Err(()); }
+		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
 		let len = 2 + 1 + 1 + 4*3 + 2 + name_len(&self.key_name) + self.signature.len() as u16;
-- 
2.43.0


From 5a48faac41cbe2917f5fb78c3d486b9d1997bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 17/33] fix: Don't panic when extending a QueryBuf past 64KiB

---
 src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 1e02e2b..e5aff50 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -48,7 +48,8 @@ impl QueryBuf {
 	/// If the total length of this buffer exceeds [`u16::MAX`] after appending, the buffer's state
 	/// is undefined, however pushing data beyond [`u16::MAX`] will not panic.
 	pub fn extend_from_slice(&mut self, sl: &[u8]) {
-		let new_len = self.len.saturating_add(sl.len() as u16);
+		let sl = &sl[..cmp::min(sl.len(), (u16::MAX - self.len) as usize)];
+		let new_len = self.len + sl.len() as u16;
 		let was_heap = self.len > STACK_BUF_LIMIT;
 		let is_heap = new_len > STACK_BUF_LIMIT;
 		if was_heap != is_heap {
-- 
2.43.0


From ee0bdbb2af6fbb6e93ab682df524185fb1107e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:59 +0000
Subject: [PATCH 18/33] fix: Compare only the contents of QueryBufs

---
 src/query.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index e5aff50..a15f82e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -27,7 +27,7 @@ const STACK_BUF_LIMIT: u16 = 32;
 const STACK_BUF_LIMIT: u16 = 2048;
 
 /// A buffer for storing queries and responses.
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct QueryBuf {
 	buf: [u8; STACK_BUF_LIMIT as usize],
 	heap_buf: Vec<u8>,
@@ -74,6 +74,10 @@ impl QueryBuf {
 		}
 	}
 }
+impl PartialEq for QueryBuf {
+	fn eq(&self, o: &QueryBuf) -> bool { self[..] == o[..] }
+}
+impl Eq for QueryBuf {}
 impl ops::Deref for QueryBuf {
 	type Target = [u8];
 	fn deref(&self) -> &[u8] {
-- 
2.43.0


From 6da021e7dba698dbd48fc648a41102303e584e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 19/33] fix: Reject responses with a response code of eight

---
 src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index a15f82e..4006b16 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -133,7 +133,7 @@ fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<N
 	if flags & 0b1000_0000_0000_0000 == 0 {
 		return Err(());
 	}
-	if flags & 0b0111_1010_0000_0111 != 0 {
+	if flags & 0b0111_1010_0000_1111 != 0 {
 		return Err(());
 	}
 	if flags & 0b10_0000 == 0 {
-- 
2.43.0


From 3d5b2d93c1d96c659fad64d93954d63c29f2f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:15 +0000
Subject: [PATCH 20/33] fix: Drop records from responses which failed to parse

---
 src/query.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 4006b16..44ebb97 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -255,7 +255,12 @@ impl ProofBuilder {
 		if self.pending_queries == 0 { return Err(()); }
 
 		let mut rrsig_key_names = Vec::new();
-		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)?;
+		let proof_len = self.proof.len();
+		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)
+			.map_err(|()| {
+				// Don't leave the first records of a bad response in the proof.
+				self.proof.truncate(proof_len)
+			})?;
 		self.min_ttl = cmp::min(self.min_ttl, min_ttl);
 		self.pending_queries -= 1;
 
-- 
2.43.0


From d9394ff5355d9b4dac9d1127a6b2865788bdd079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:24 +0000
Subject: [PATCH 21/33] fix: Generate valid JSON for RRSig records

---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index a10214d..bd60f37 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -594,7 +594,7 @@ impl StaticRecord for RRSig {
 	fn json(&self) -> String {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
-			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
+			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
 			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
-- 
2.43.0


From d5faaac08aee0b8f421015d0b96e0a40efaace6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:36 +0000
Subject: [PATCH 22/33] fix: Escape backslashes in names in JSON

---
 src/rr.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index bd60f37..81161b1 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -31,6 +31,9 @@ impl Name {
 			self.as_str().chars().filter(|c| *c == '.').count() as u8
 		}
 	}
+	/// Gets the name as it should appear in a JSON string. Of the characters allowed in a name,
+	/// only a backslash has to be escaped.
+	fn json_escaped(&self) -> String { self.0.replace('\\', "\\\\") }
 	/// Gets a string containing the last `n` labels in this [`Name`] (which is also a valid name).
 	pub fn trailing_n_labels(&self, n: u8) -> Option<&str> {
 		let labels = self.labels();
@@ -282,10 +285,10 @@ impl StaticRecord for Txt {
 	fn json(&self) -> String {
 		if let Ok(s) = core::str::from_utf8(&self.data) {
 			if s.chars().all(|c| !c.is_control() && c != '"' && c != '\\') {
-				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.0, s);
+				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.json_escaped(), s);
 			}
 		}
-		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.0, &self.data[..])
+		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.json_escaped(), &self.data[..])
 	}
 	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		let mut parsed_data = Vec::with_capacity(data.len().saturating_sub(1));
@@ -344,7 +347,7 @@ impl StaticRecord for TLSA {
 		let mut out = String::with_capacity(128+self.data.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"tlsa\",\"name\":\"{}\",\"usage\":{},\"selector\":{},\"data_ty\":{},\"data\":\"",
-			self.name.0, self.cert_usage, self.selector, self.data_ty
+			self.name.json_escaped(), self.cert_usage, self.selector, self.data_ty
 		).expect("Write to a String shouldn't fail");
 		for c in self.data.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -382,7 +385,7 @@ impl StaticRecord for CName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"cname\",\"name\":\"{}\",\"canonical_name\":\"{}\"}}",
-			self.name.0, self.canonical_name.0)
+			self.name.json_escaped(), self.canonical_name.json_escaped())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -413,7 +416,7 @@ impl StaticRecord for DName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"dname\",\"name\":\"{}\",\"delegation_name\":\"{}\"}}",
-			self.name.0, self.delegation_name.0)
+			self.name.json_escaped(), self.delegation_name.json_escaped())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -449,7 +452,7 @@ impl StaticRecord for DnsKey {
 		let mut out = String::with_capacity(128+self.pubkey.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"dnskey\",\"name\":\"{}\",\"flags\":{},\"protocol\":{},\"alg\":{},\"pubkey\":\"",
-			self.name.0, self.flags, self.protocol, self.alg
+			self.name.json_escaped(), self.flags, self.protocol, self.alg
 		).expect("Write to a String shouldn't fail");
 		for c in self.pubkey.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -520,7 +523,7 @@ impl StaticRecord for DS {
 		let mut out = String::with_capacity(128+self.digest.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"ds\",\"name\":\"{}\",\"key_tag\":{},\"alg\":{},\"digest_type\":{},\"digest\":\"",
-			self.name.0, self.key_tag, self.alg, self.digest_type
+			self.name.json_escaped(), self.key_tag, self.alg, self.digest_type
 		).expect("Write to a String shouldn't fail");
 		for c in self.digest.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -595,7 +598,7 @@ impl StaticRecord for RRSig {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
-			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
+			self.name.json_escaped(), self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.json_escaped()
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -702,7 +705,7 @@ impl StaticRecord for NSec {
 		let mut out = String::with_capacity(256 + self.next_name.len());
 		write!(&mut out,
 			"{{\"type\":\"nsec\",\"name\":\"{}\",\"next_name\":\"{}\",\"types\":",
-			self.name.0, self.next_name.0,
+			self.name.json_escaped(), self.next_name.json_escaped(),
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -758,7 +761,7 @@ impl StaticRecord for NSec3 {
 		let mut out = String::with_capacity(256);
 		write!(&mut out,
 			"{{\"type\":\"nsec3\",\"name\":\"{}\",\"hash_algo\":{},\"flags\":{},\"hash_iterations\":{},\"salt\":{:?},\"next_name_hash\":{:?},\"types\":",
-			self.name.0, self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
+			self.name.json_escaped(), self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -803,7 +806,7 @@ impl StaticRecord for A {
 	const TYPE: u16 = A_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json_escaped(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 4 { return Err(()); }
@@ -831,7 +834,7 @@ impl StaticRecord for AAAA {
 	const TYPE: u16 = AAAA_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.json_escaped(), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 16 { return Err(()); }
@@ -875,7 +878,7 @@ impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.0, self.name_server.0)
+		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.json_escaped(), self.name_server.json_escaped())
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-- 
2.43.0


From 754367abaadb212a8b6ec49f4bf06576dd816922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 23/33] fix: Reject names with empty labels

---
 src/rr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 81161b1..642bb9a 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -64,8 +64,10 @@ impl TryFrom<String> for Name {
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
 		if s.len() > 255 { return Err(()); }
 		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
-		for label in s.split(".") {
-			if label.len() > 63 { return Err(()); }
+		if s != "." {
+			for label in s[..s.len() - 1].split(".") {
+				if label.is_empty() || label.len() > 63 { return Err(()); }
+			}
 		}
 
 		Ok(Name(s.to_ascii_lowercase()))
-- 
2.43.0


From e65483348d9660d55383506e9a407fcb0e3b3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 24/33] fix: Reject labels which contain a dot

---
 src/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index 3ddc9e9..7477ae9 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -87,6 +87,8 @@ fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut St
 			break;
 		}
 		if inp.len() <= len { return Err(()); }
+		// We have no way to represent a '.' within a label, and it isn't the end of one.
+		if inp[..len].contains(&b'.') { return Err(()); }
 		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
 		*name += ".";
 		*inp = &inp[len..];
-- 
2.43.0


From 80097d3033fd85775cffe97d2732f8f87dd11cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 25/33] fix: Keep serving when accepting a connection fails

---
 src/http.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index f29c18e..bfddd48 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -42,13 +42,22 @@ mod imp {
 	use query::*;
 
 	use std::net::SocketAddr;
+	use std::time::Duration;
 
 	use tokio::net::TcpListener;
 	use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
-			let (mut socket, _) = listener.accept().await.expect("Failed to accept new TCP connection");
+			let mut socket = match listener.accept().await {
+				Ok((socket, _)) => socket,
+				Err(_) => {
+					// The connection may have been aborted or we may be out of file descriptors until
+					// some connections close. Keep serving others, just don't spin in the meantime.
+					let _ = tokio::task::spawn_blocking(|| std::thread::sleep(Duration::from_millis(10))).await;
+					continue;
+				},
+			};
 			tokio::spawn(async move {
 				let mut response = ("400 Bad Request", "Bad Request");
 				'ret_err: loop { // goto label
-- 
2.43.0


From 192a84c7ce9f52495df41d46c116769337da7720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:22 +0000
Subject: [PATCH 26/33] fix: don't lose HTTP responses when request headers
 arrive after the request line

---
 src/http.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index bfddd48..16653c9 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -44,9 +44,25 @@ mod imp {
 	use std::net::SocketAddr;
 	use std::time::Duration;
 
-	use tokio::net::TcpListener;
+	use tokio::net::{TcpListener, TcpStream};
 	use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
+	/// Sends a full response, after which the connection can be closed.
+	///
+	/// Closing a socket while there is unread data (here, any request headers which were not received
+	/// together with the request line) resets the connection, dropping whatever has not been sent yet.
+	/// Thus, we send the response in one go and discard what else the client sent.
+	async fn send_response(socket: &mut TcpStream, response: &[u8]) {
+		let _ = socket.write_all(response).await;
+		let mut discarded = [0; 4096];
+		for _ in 0..64 {
+			match socket.try_read(&mut discarded) {
+				Ok(0) | Err(_) => break,
+				Ok(_) => {},
+			}
+		}
+	}
+
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
 			let mut socket = match listener.accept().await {
@@ -136,16 +152,16 @@ mod imp {
 						break 'ret_err;
 					};
 
-					let _ = socket.write_all(
+					let mut full_response =
 						format!(
 							"HTTP/1.1 200 OK\r\nContent-Length: {}\r\nContent-Type: application/octet-stream\r\nCache-Control: public, max-age={}, s-maxage={}\r\nAccess-Control-Allow-Origin: *\r\n\r\n",
 							proof.len(), cache_ttl, cache_ttl
-						).as_bytes()
-					).await;
-					let _ = socket.write_all(&proof).await;
+						).into_bytes();
+					full_response.extend_from_slice(&proof);
+					send_response(&mut socket, &full_response).await;
 					return;
 				}
-				let _ = socket.write_all(format!(
+				send_response(&mut socket, format!(
 					"HTTP/1.1 {}\r\nContent-Length: {}\r\nContent-Type: text/plain\r\nAccess-Control-Allow-Origin: *\r\n\r\n{}",
 					response.0, response.1.len(), response.1,
 				).as_bytes()).await;
-- 
2.43.0


From f401ff789e369d526cf1d08323a8d89012aa85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 27/33] fix: accept responses of the maximum length in the WASM
 bindings

---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 57fe0a0..e949a50 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -40,7 +40,7 @@ pub fn init_proof_builder(mut name: String, ty: u16) -> Option<WASMProofBuilder>
 /// After calling this, [`get_next_query`] should be called until pending queries are exhausted and
 /// no more pending queries exist, at which point [`get_unverified_proof`] should be called.
 pub fn process_query_response(proof_builder: &mut WASMProofBuilder, response: Vec<u8>) {
-	if response.len() < u16::MAX as usize {
+	if response.len() <= u16::MAX as usize {
 		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
 		answer.copy_from_slice(&response);
 		if let Ok(queries) = proof_builder.0.process_response(&answer) {
-- 
2.43.0


From 06976a314e6281ef5f38c91efa08234cf79ffe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:27 +0000
Subject: [PATCH 28/33] fix: report zones using only SHA-384 DS digests as
 unsupported

The DS digest type for SHA-384 counted as a known one though we cannot
check it, so that zones whose parent uses nothing else (or, additionally,
SHA-1, which isn't used if there is something better) were reported as
invalid rather than as using an unsupported algorithm.
---
 src/validation.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index b047166..4bff7cd 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -185,11 +185,14 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	let mut validated_dnskeys = Vec::with_capacity(records.len());
 	let dses = dses.into_iter();
 
+	// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
+	let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
 	let mut had_known_digest_type = false;
 	let mut had_ds = false;
 	for ds in dses.clone() {
 		had_ds = true;
-		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
+		// Note that we don't (yet) support SHA384.
+		if (ds.digest_type == 1 && trust_sha1) || ds.digest_type == 2 {
 			had_known_digest_type = true;
 			break;
 		}
@@ -198,8 +201,6 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	if !had_known_digest_type { return Err(ValidationError::UnsupportedAlgorithm); }
 
 	for dnskey in records.iter() {
-		// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
-		let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
 		for ds in dses.clone() {
 			if ds.alg != dnskey.alg { continue; }
 			if dnskey.key_tag() == ds.key_tag {
-- 
2.43.0


From 031a50e0c66def113a42af1f0bf8aa7fe4c758c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 29/33] fix: don't report stripped signatures as an unsupported
 algorithm

If a zone's DS records vouch for keys in both supported and unsupported
algorithms, anyone can remove the supported signatures from (or even make
up unsupported ones for) its DNSKEY set. This was reported as
UnsupportedAlgorithm, in which case the data should generally be used as
if it weren't signed. RFC 4035 5.2 has that only if none of the algorithms
in the DS set is supported.
---
 src/validation.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 4bff7cd..3bc5277 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -188,13 +188,14 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	// Only use SHA1 DS records if we don't have any SHA256/SHA384 DS RRs.
 	let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);
 	let mut had_known_digest_type = false;
+	let mut had_supported_alg = false;
 	let mut had_ds = false;
 	for ds in dses.clone() {
 		had_ds = true;
 		// Note that we don't (yet) support SHA384.
 		if (ds.digest_type == 1 && trust_sha1) || ds.digest_type == 2 {
 			had_known_digest_type = true;
-			break;
+			had_supported_alg |= matches!(ds.alg, 8 | 10 | 13 | 14 | 15);
 		}
 	}
 	if !had_ds { return Err(ValidationError::Invalid); }
@@ -236,7 +237,8 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 			Err(ValidationError::UnsupportedAlgorithm) => {
 				// There may be redundant signatures by different keys, where one we don't
 				// supprt and another we do. Ignore ones we don't support, but if there are
-				// no more, return UnsupportedAlgorithm
+				// no more, return UnsupportedAlgorithm (unless a DS vouches for a key we do
+				// support, in which case the signature by it was removed).
 				found_unsupported_alg = true;
 			},
 			Err(ValidationError::Invalid) => {
@@ -246,7 +248,7 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 		}
 	}
 
-	if found_unsupported_alg {
+	if found_unsupported_alg && !had_supported_alg {
 		Err(ValidationError::UnsupportedAlgorithm)
 	} else {
 		Err(ValidationError::Invalid)
-- 
2.43.0


From 0156f60e6fd758e7440e8a81ac272e6e6acb2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 30/33] fix: escape error messages in the JSON the DoH lookup
 returns

---
 wasmpack/doh_lookup.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/doh_lookup.js b/wasmpack/doh_lookup.js
index 17c5bbf..6a5c447 100644
--- a/wasmpack/doh_lookup.js
+++ b/wasmpack/doh_lookup.js
@@ -40,7 +40,7 @@ export async function lookup_doh(domain, ty, doh_endpoint) {
 						wasm.process_query_response(builder, buf);
 						queries_pending -= 1;
 					} catch (e) {
-						return "{\"error\":\"DoH Query failed: " + e + "\"}";
+						return JSON.stringify({error: "DoH Query failed: " + e});
 					}
 					return await send_next_query();
 				} else if (queries_pending == 0) {
-- 
2.43.0


From 9f0c99c5d21e355692d45698803ff426f7996314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 31/33] fix: accept proofs which hold both NSEC records of a
 zone cut

---
 src/validation.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 3bc5277..b93ebd2 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -418,8 +418,20 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
 			if labels_below_zone(&rrsig.name, zone).is_none() { return Err(ValidationError::Invalid); }
+			// The zones above and below a zone cut each have an `NSec` at the name of the cut. If we
+			// have both, tell them apart by the SOA type (6), which only exists in the zone below.
+			let nsec_at_cut = rrsig.ty == NSec::TYPE && inp.iter().any(|rr| {
+				if let RR::RRSig(sig) = rr {
+					sig.name == rrsig.name && sig.ty == NSec::TYPE && sig.key_name != rrsig.key_name
+				} else { false }
+			});
 			let signed_records = inp.iter()
-				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
+				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty)
+				.filter(move |rr| match rr {
+					RR::NSec(nsec) if nsec_at_cut =>
+						nsec.types.contains_type(6) == (rrsig.name == rrsig.key_name),
+					_ => true,
+				});
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
 				Ok(()) => {},
 				Err(ValidationError::UnsupportedAlgorithm) => continue,
-- 
2.43.0


From a8176821d1be105b6800ad6256742b4e6b7bf488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:06 +0000
Subject: [PATCH 32/33] fix: ignore signatures by keys which are not in the key
 set

---
 src/validation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index b93ebd2..c5c5dc4 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -418,6 +418,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
 			if labels_below_zone(&rrsig.name, zone).is_none() { return Err(ValidationError::Invalid); }
+			// The records may also be signed by keys which aren't (yet, or any longer) in the key set, as
+			// happens during rollovers. Such signatures are of no use, but also don't make the proof
+			// invalid.
+			let have_key = dnskeys.clone()
+				.any(|key| key.key_tag() == rrsig.key_tag && key.alg == rrsig.alg);
+			if !have_key { continue; }
 			// The zones above and below a zone cut each have an `NSec` at the name of the cut. If we
 			// have both, tell them apart by the SOA type (6), which only exists in the zone below.
 			let nsec_at_cut = rrsig.ty == NSec::TYPE && inp.iter().any(|rr| {
-- 
2.43.0


From 680bf4db5de5a1f8845148fdb64bd1a48b8f40c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:20 +0000
Subject: [PATCH 33/33] fix: don't let a wildcard's DS delegate other names

---
 src/validation.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index c5c5dc4..cc3e267 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -453,6 +453,13 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
+					// A DS only ever delegates the very name it is at, so if it was signed as that of a
+					// wildcard, the name here has to be that of the wildcard itself.
+					let is_wildcard_itself = rrsig.name.starts_with("*.") &&
+						rrsig.labels.checked_add(1) == Some(rrsig.name.labels());
+					if rrsig.labels != rrsig.name.labels() && !is_wildcard_itself {
+						return Err(ValidationError::Invalid);
+					}
 					if !seen_zones.contains(&rrsig.name.as_str()) {
 						seen_zones.push(rrsig.name.as_str());
 						pending_ds_sets.push((
-- 
2.43.0

