#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ANCHOR = "a cfg(dnssec_verif) hook that lets the harness supply its own root trust anchors"
V = "src/validation.rs"; R = "src/rr.rs"; S = "src/ser.rs"; Q = "src/query.rs"; H = "src/http.rs"; W = "wasmpack/src/lib.rs"; B = "src/base32.rs"

p("C01", "Only records authenticated down from the trust anchor are returned",
  "Every record that proof verification returns as verified was signed, as part of its complete record set and under exactly that owner name, type and data, by a key of a zone that encloses the owner name (whole labels), and that zone's keys are themselves authenticated by delegation-signer records that a parent zone signed, in an unbroken chain down from a root trust anchor. No forging, altering, mixing, replaying or dropping of records, signatures, keys or delegations, by anyone who does not hold the signing key of a zone enclosing the name, makes any other record appear as verified; only data record types are returned, never signatures, keys, delegation-signer or denial records.",
  ["inputs"], "all record collections an adversary can assemble: honest signed data mixed with altered, injected and re-labelled records and with records signed by keys of zones the adversary owns, for all zone trees, algorithms and names",
  "The tests only verify a dozen captured genuine proofs and check that they are accepted; no test offers a forged, mixed or re-signed proof (apart from a handful of wildcard names), so nothing samples the adversarial input space.",
  [V], [("verify_rr_stream zone walk", V), ("verify_rrsig", V), ("verify_dnskeys", V)], ["return value of verify_rr_stream"], ANCHOR)

p("C02", "A wildcard answer is accepted only with proof that the name does not exist",
  "A record whose signature comes from a wildcard is returned as verified at a concrete name only if the proof also holds a denial record (NSEC or NSEC3, not opt-out), itself verified and signed by the same zone that signed the wildcard, showing that the next closer name below the wildcard's parent does not exist there, not even as an empty non-terminal or with other record types. Consequently nobody replaying genuine signed records (from any zone, including parent and child zones) can make a wildcard's data appear at a name which exists, at a name below one that exists, or at a name of another zone.",
  ["inputs"], "all zone contents (wildcards, overrides, empty non-terminals, delegations), all NSEC and NSEC3 parameters, all names an adversary may expand a wildcard to and all subsets of genuine denial records offered as proof",
  "The tests try one NSEC zone and one NSEC3 zone with 8 hand-picked prefixes; the property quantifies over names, zone contents and which denial records are offered.",
  [V, B], [("rrs_needing_non_existence_proofs and the proof search loop", V), ("nsec_ord", V), ("base32 decoding of NSEC3 owner names", B)], ["return value of verify_rr_stream"], ANCHOR)

p("C03", "Correctly signed proofs are accepted and yield exactly the proven records",
  "Whenever a set of records holds a complete, correctly signed chain from a trust anchor, for every supported signing algorithm (RSA/SHA-256, RSA/SHA-512, ECDSA P-256 and P-384, Ed25519), SHA-1 or SHA-256 delegation digests, key-signing/zone-signing or combined keys, any supported record type and record-set size, several names and zones, wildcard expansions with their NSEC or NSEC3 denial, and with additional signatures in unsupported algorithms or by keys which are not (yet, or any longer) in the key set, verification succeeds. It then returns exactly the data records which were signed, each once.",
  ["inputs", "configurations"], "all correctly signed zone trees within the supported algorithms and record types, all names and types asked for",
  "The tests accept about ten captured proofs using two algorithms; algorithms 10, 14 and 15, SHA-1 digests, multi-record sets of most types and deep or branching chains are never exercised.",
  [V, R, S, "src/crypto/hash.rs"], [("verify_rrsig canonical form", V), ("write_name / write_u16_len_prefixed_data", S), ("record ordering", R)], ["return value of verify_rr_stream"], ANCHOR)

p("C04", "Validity window and cache lifetime never exceed any signature relied on",
  "The start of validity reported with verified records is the latest inception, the end of validity the earliest expiration, and the maximum cache lifetime the smallest original TTL, over all the signatures in the chain that were validated to verify those records (key sets, delegations, denial records and the records themselves), with 32-bit times before 1997 understood as lying after the 2106 rollover. A proof whose signatures have no common moment of validity is rejected.",
  ["inputs"], "all proofs and all combinations of inception, expiration and TTL values on any signature of the chain, including values around the 32-bit rollover",
  "One test checks three constants on one captured proof; which link of the chain is the binding one, and rollover times, are never varied.",
  [V], [("latest_inception / earliest_expiry / min_ttl accumulation", V), ("resolve_time", V)], ["VerifiedRRStream::valid_from, expires, max_cache_ttl"], ANCHOR)

p("C05", "Ineligible keys, weak digests and unsupported algorithms confer no trust",
  "A key without the zone flag, with a protocol other than 3, or with an algorithm or key tag different from the signature's or delegation's never authenticates anything, and neither does a delegation digest unless it equals the full digest of the key, with SHA-1 digests ignored whenever the same delegation also has a stronger digest. Data signed only in algorithms this library does not support is never returned, and a chain that cannot be followed because of unsupported algorithms or digests yields an error rather than unauthenticated data.",
  ["inputs", "configurations"], "all key sets, delegation sets and signatures mixing eligible and ineligible keys, digest types and algorithms",
  "No test has an ineligible key, a mismatching or SHA-1 digest or an unsupported algorithm, so every one of these checks could be removed with all tests passing.",
  [V, R, "src/crypto/hash.rs"], [("key eligibility checks in verify_rrsig", V), ("digest selection in verify_dnskeys", V), ("DnsKey::key_tag", R)], ["return value of verify_rr_stream"], ANCHOR)

p("C06", "Verification does not depend on record order or on unrelated records",
  "For a correctly signed proof, every order of its records gives the same verdict, the same set of verified records and, where each record set has one usable signature (any of several may be relied on), the same validity window and cache lifetime. Adding records that nothing in the chain vouches for (unsigned records at other names, keys and signatures of zones which are not reachable) changes neither the verdict nor what is returned, and the same input always gives the same output.",
  ["inputs"], "all correctly signed proofs, all permutations of their records, all unrelated additions",
  "The tests shuffle each captured proof once, at random; neither systematic orders nor additions nor equality of the complete result are checked.",
  [V], [("zone work list and filters over the whole input", V)], ["return value of verify_rr_stream over permutations of one input"], ANCHOR)

p("C07", "Verification and name resolution terminate with bounded work on any input",
  "For every input, including delegation, CNAME and DNAME loops, zones delegating to themselves or repeatedly to the same descendants, proofs that stop at the root, colliding key tags and huge hash iteration counts, verification and name resolution return. Verification checks no more signatures than the input has signature records and stops at the first that fails, and hashes for denial proofs at most a fixed number of iterations (2500) for at most two parameter sets per name.",
  ["inputs"], "all record collections, in particular those an owner of a zone can sign at will",
  "All tests use benign proofs without loops or collisions, so none can tell bounded from unbounded work.",
  [V], [("next_zone loop and pending_ds_sets", V), ("hard failure on the first bad signature", V), ("NSEC3 iteration and parameter limits", V), ("resolve_name loop", V)],
  ["signature-verification and hash counters", "CPU time per call"], "event counters at the signature check and hash finalisation (cfg(dnssec_verif))")

p("C08", "Resolving a name follows verified CNAME and DNAME records exactly",
  "Given verified records and a name, name resolution returns exactly the verified records found at the name reached by following CNAME records at the name and, where there is none, DNAME records at proper ancestors (whole labels; the DNAME owner itself and names merely ending in the same characters are not redirected), each redirect replacing only the matched suffix. It returns nothing when the redirects loop or the resulting name would be invalid, and it never returns a record that is not in the verified set.",
  ["inputs"], "all verified record sets (any mix of CNAME, DNAME and data records at related names) and all query names",
  "Tests resolve three names over at most one CNAME each; DNAMEs are only covered by tests that need the internet.",
  [V], [("VerifiedRRStream::resolve_name", V)], ["return value of resolve_name"])

p("C09", "No input makes parsing, printing, verifying or building panic or misbehave",
  "Arbitrary bytes or text given to the record-stream parser, to response processing, to name parsing and to the query buffer, and arbitrary parsed records given to verification, name resolution, serialisation, comparison and JSON output, produce a result or an error. They never cause a panic, arithmetic overflow, out-of-bounds access, stack exhaustion, undefined behaviour or memory use out of proportion to the input, in debug and in release builds.",
  ["inputs"], "all byte strings and texts, all sequences of responses, all parseable record collections",
  "The unit tests parse only well-formed data; the fuzz targets are not run by the tests and one does not even compile.",
  [S, R, Q, V, B], [("length checks in the readers", S), ("read_nsec_types_bitmap bounds", S), ("compression pointer recursion limit", S), ("RSA key parsing", V)], ["process outcome under debug assertions, overflow checks, AddressSanitizer, Miri"])

p("C10", "Records survive encoding and decoding unchanged, in canonical wire format",
  "Writing a record and reading it back gives an equal record and leaves nothing over, for every record type and content that fits a record, so that a stream of written records parses to the same list; what is written is the canonical RFC 4034 form (lower-case uncompressed names, minimal type bitmaps, exact length prefix). Reading accepts every well-formed encoding of a supported Internet-class record and gives exactly the name, type and content that the bytes denote, and it rejects records of other classes or types and records which are truncated, hold left-over bytes, or hold illegal names or type bitmaps.",
  ["inputs"], "all records of the twelve supported types with all field values and sizes, all byte strings offered for decoding",
  "Tests round-trip only the records of the captured proofs; empty, maximal, multi-chunk and malformed encodings are not sampled.",
  [S, R], [("write_rr, write_name, name_len", S), ("parse_wire_packet_rr and read_from_data", S), ("type bitmap read/write", S)], ["write_rr / parse_rr_stream results against an independent codec"])

p("C11", "Record ordering is the canonical order and consistent; tags and masks are exact",
  "Records that can share a name and type (A, AAAA, NS, TXT, TLSA, DNSKEY, DS) compare by the canonical (unsigned octet-wise) order of their wire data as DNSSEC signing requires, and for all records comparison is a total order in which all ways of comparing (ordering, equality, operators) agree. A key's tag equals the RFC 4034 checksum for every key, and a type mask contains exactly the types it was built from or read with.",
  ["inputs"], "all pairs and triples of records of one type, all keys, all sets of types",
  "Tests sort one set of TXT records; other types, transitivity, agreement of the comparison traits, key tags of odd-length or large keys and most types in masks are not sampled.",
  [R], [("PartialOrd/Ord implementations", R), ("DnsKey::key_tag", R), ("NSecTypeMask", R)], ["cmp, partial_cmp, eq, sort, key_tag, contains_type results"])

p("C12", "Names are accepted exactly when valid and label operations are exact",
  "A text becomes a name exactly when it ends in a dot, is at most 255 bytes long, consists of printable ASCII other than the double quote, and splits into non-empty labels of at most 63 bytes (the root being a lone dot); names compare and print without regard to the case given. The label count is the number of labels, and asking for the last n labels gives exactly the suffix of n labels, the root for zero, and nothing when there are fewer.",
  ["inputs"], "all texts and all n",
  "Names are only constructed from literals in tests; limits, empty labels, illegal characters and suffix extraction are not sampled.",
  [R], [("TryFrom<String> for Name", R), ("Name::labels, trailing_n_labels", R)], ["Name::try_from, labels, trailing_n_labels"])

p("C13", "JSON output is always valid and denotes exactly the record",
  "For every record of every type the JSON output is one valid JSON object whose fields, once decoded, give the record's type, name and content without loss or alteration (including backslashes in names and arbitrary TXT bytes), so that no record content can break out of or alter the structure. The JSON that the byte-stream verification entry point of the web bindings produces is likewise valid for every input, being either an error or exactly the verified records, window and cache lifetime.",
  ["inputs"], "all records with all field contents, all byte streams",
  "No test looks at the JSON output at all.",
  [R, W], [("json implementations", R), ("verify_byte_stream", W)], ["Record::json and verify_byte_stream output decoded by a strict JSON parser"])

p("C14", "The query buffer behaves as a byte vector",
  "A query buffer created with a length holds that many zero bytes, and any series of appends, writes through it, clones, comparisons and conversion into a vector gives the same contents, length and equality as the same operations on a byte vector, whatever the sizes and however its storage grows. Appending beyond 65535 bytes in total does not panic.",
  ["histories"], "all sequences of buffer operations with all sizes from 0 to 65535 and beyond",
  "No test exercises the buffer directly; in tests its internal threshold is even replaced by another value, so the production threshold is never crossed.",
  [Q], [("QueryBuf", Q)], ["QueryBuf public API against Vec<u8>"])

p("C15", "The proof builder's query protocol is exact and bounded for any responses",
  "Whatever responses it is given, the proof builder asks for the name and type requested first, then once each for the keys (and, except for the root, the delegation) of every zone named as signer in accepted responses, never emitting more than ten queries in total, with well-formed queries that ask for DNSSEC data. It awaits responses exactly while queries are outstanding and the limit is not exceeded, releases a proof exactly when every query was answered within the limit, and that proof is the concatenation of the relevant records of all accepted responses, together with the smallest of their TTLs; a rejected response changes nothing.",
  ["histories", "fault_sequences"], "all sequences of responses, valid, erroneous, truncated, repeated, with any signer names",
  "The builder is tested only against live public resolvers (tests that need the internet), on a few benign names.",
  [Q], [("ProofBuilder::process_response", Q), ("MAX_REQUESTS", Q), ("build_query", Q)], ["queries returned, awaiting_responses, finish_proof"], None,
  [("pending_queries", "queries not answered yet", Q), ("queries_made", "queries emitted in total", Q), ("dnskeys_requested", "zones already asked for", Q)])

p("C16", "Only complete, successful, authenticated responses contribute to a proof",
  "A resolver message is accepted only if it is an untruncated, successful, DNSSEC-authenticated response to a standard query with the expected transaction id, one question, at least one answer and a completely parseable answer and authority section; any other message is rejected. From an accepted message all answer records, and from its authority section exactly the denial records and their signatures, are taken over unaltered (names decompressed, TTLs kept) and in order, while additional records are ignored.",
  ["inputs"], "all messages: all header values, all record mixes in all sections, all legal and illegal name compression",
  "Offline tests never process a response message; the live ones see only well-formed answers.",
  [Q, S], [("handle_response", Q), ("parse_wire_packet_rr, read_wire_packet_name", S)], ["process_response result and finish_proof bytes"])

p("C17", "Building a proof from a resolver yields a proof that verifies, or an error",
  "Against a correct recursive resolver, building a proof for any existing signed A, AAAA, TXT or TLSA name that needs no more than ten queries, through the blocking, asynchronous or caller-driven interface and whatever the fragmentation or order of the responses, gives a proof that verifies and resolves the name to exactly the published records, with the smallest TTL seen. When the resolver closes early, sends errors, garbage or endless work, the build returns an error after a bounded number of messages, and never a partial proof.",
  ["inputs", "schedules", "fault_sequences"], "all zone trees and names, all deliveries (fragmentation, pipelining, reordering) and resolver faults",
  "The existing end-to-end tests need public resolvers and are excluded from the stable tests; no fault or fragmentation is ever injected.",
  [Q, S, V], [("build_proof_impl", Q), ("read_response / send_query", Q)], ["results of build_*_proof, build_*_proof_async and ProofBuilder over loopback TCP"], ANCHOR)

p("C18", "The HTTP server answers every request correctly, independently and survives",
  "For each connection the proof server replies with exactly one well-formed HTTP response with matching length: for a well-formed GET of the proof path with a valid domain and supported type the exact proof built for that domain and type with its TTL as cache lifetime, and otherwise a 400 or 404 error. Concurrent, fragmented, malformed, oversized or aborted requests and resolver failures neither mix up responses nor stop the server from serving later requests.",
  ["inputs", "schedules", "histories", "fault_sequences"], "all request byte strings and their fragmentation, all interleavings of concurrent clients, client aborts, resolver faults, exhaustion of connections",
  "The three server tests need public resolvers, send one well-formed request each and are excluded from the stable tests.",
  [H, Q], [("run_server request loop", H)], ["bytes on the client sockets and at a mock resolver"])

p("C19", "The web bindings give the same results as the library",
  "Driving proof building through the web bindings (create a builder for a name with or without the final dot, fetch queries until none is left, hand in responses) produces the same queries and the same proof as the library's builder, and refuses the same names, while unusable responses (over-long, malformed) leave the builder as it was. Verifying a byte stream through the bindings reports an error exactly when the library rejects the stream, and otherwise the records, validity window and cache lifetime the library reports.",
  ["inputs", "histories"], "all names, response sequences and byte streams",
  "The bindings have no tests.",
  [W, Q, V], [("init_proof_builder, process_query_response, get_next_query, get_unverified_proof, verify_byte_stream", W)], ["return values of the exported functions, called natively"])

p("C20", "Production builds trust the two IANA root keys and nothing else",
  "In a normal (non-test) build a proof is accepted only if its chain starts at one of the two published IANA root key-signing keys (key tags 19036 and 20326): genuine proofs rooted there are accepted, and chains rooted in any other key, including the RFC 9102 example root, keys sharing a key tag with the real ones, or private roots, are rejected whatever else they contain.",
  ["inputs", "configurations"], "all proofs rooted in other keys, in production feature sets",
  "Unit tests run with an additional RFC 9102 trust anchor compiled in, so they cannot see what a production build trusts.",
  [V], [("root_hints", V), ("verify_dnskeys for the root", V)], ["root_hints() and verify_rr_stream of a build without test or verification cfgs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
p("C21", "Only a zone's own signed wish makes a proof count as unsupported, not invalid",
  "Verification tells an unsupported algorithm (in which case the data is to be used as if it was not signed) apart from an invalid proof: the former is reported only if some zone on an otherwise authenticated chain has, according to the delegation signed by its parent, nothing but keys or digests in algorithms the library does not support, and it is reported for every correct proof involving such a zone. No removal, relabelling, replacement or addition of records or signatures by somebody without keys turns a proof of zones that use supported algorithms (alone or beside unsupported ones) into an unsupported one. A proof with nothing verifiable in it is an error, never an empty success.",
  ["inputs"], "all proofs an adversary can derive from correct ones, and all correct proofs of zones using any mix of supported and unsupported keys and digests",
  "No test looks at which error is returned, and none has a zone with unsupported or mixed algorithms.",
  [V], [("verify_dnskeys", V), ("verify_rrsig", V), ("verify_rr_stream", V)], ["ValidationError returned by verify_rr_stream"], ANCHOR)

p("C22", "The browser DoH lookup returns verified records or an error, as valid JSON",
  "For every domain text, type text, DNS-over-HTTPS address and behaviour of the resolver, the web package's lookup ends and gives valid JSON text. If the domain is a name, the type is txt, tlsa, a or aaaa in any case, and the resolver answers correctly and within ten queries, it is exactly the records, validity window and cache lifetime the library verifies from the resolver's answers; in every other case (HTTP errors, failing or broken-off connections with any error text, unusable answers, answers that do not verify) an object with an error and nothing else. Each query of the proof builder is sent exactly once, as a well-formed RFC 8484 request to the given address; nothing is sent for unusable names and types; simultaneous lookups do not disturb each other.",
  ["inputs", "schedules", "fault_sequences"], "all domains, types, addresses and resolver behaviours, all interleavings of simultaneous lookups",
  "The script has no tests and is never run in the repository.",
  ["wasmpack/doh_lookup.js", W], [("lookup_doh", "wasmpack/doh_lookup.js")], ["calls of fetch and of the bindings, and the result of lookup_doh, in node"], ANCHOR)

p("C23", "Every build configuration and every repetition gives the same results",
  "What the library does with an input (parsing, printing, ordering, building from a series of responses, verifying, resolving, buffer operations) depends on the input alone: it is the same each time, in unoptimised builds with assertions and in builds optimised for speed or size, and with any combination of the std, tokio, validation and build_server features that offers the operation. All other properties hold in optimised builds, too, for the library, its network functions and the HTTP server.",
  ["inputs", "configurations"], "all inputs, in all feature sets and build profiles",
  "The stable tests run in one configuration (debug, std and tokio and validation), which nobody uses in production.",
  ["Cargo.toml", V, Q, S, R, H], [("feature and cfg attributes", "src/*.rs"), ("assertions and arithmetic which depend on the profile", "src/*.rs")], ["everything the library returns, in seven builds run as processes side by side"], ANCHOR)

with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
