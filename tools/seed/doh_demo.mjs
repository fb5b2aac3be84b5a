// What the demonstrations of doh_lookup.js share: run(steps, lookups) with scripted bindings.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
export async function load(builders) {
	// builders: domain -> {queries: [bytes...], proof: bytes, json: text, bad: bool}
	const d = fs.mkdtempSync(path.join(os.tmpdir(), "doh-"));
	process.on("exit", () => fs.rmSync(d, {recursive: true, force: true}));
	fs.copyFileSync(path.join(process.cwd(), "wasmpack/doh_lookup.js"), path.join(d, "doh_lookup.js"));
	fs.writeFileSync(path.join(d, "package.json"), '{"type": "module"}');
	fs.writeFileSync(path.join(d, "dnssec_prover_wasm.js"), `
		const B = globalThis.__builders;
		export default async function init() { return {}; }
		export function init_proof_builder(name, ty) {
			const b = B[name.toLowerCase()];
			return b ? {name, b, ty, left: b.queries.slice(), got: []} : undefined;
		}
		export function get_next_query(x) { return x.left.shift(); }
		export function process_query_response(x, r) { x.got.push(Buffer.from(r).toString("hex")); }
		export function get_unverified_proof(x) { return x.b.check(x.got, x.ty) ? new Uint8Array([1, ...Buffer.from(x.name)]) : undefined; }
		export function verify_byte_stream(p) { return JSON.stringify({valid_from: 1, expires: 2, max_cache_ttl: 3, verified_rrs: [], of: Buffer.from(p.slice(1)).toString()}); }
	`);
	globalThis.__builders = builders;
	return (await import(path.join(d, "doh_lookup.js"))).lookup_doh;
}
export function answering(f) {
	const log = [];
	globalThis.fetch = async (url, init) => {
		const r = new Request(url, init), q = new URL(r.url).searchParams.get("dns");
		log.push(r.url);
		return await f(r, q, log.length);
	};
	return log;
}
export function ensure(x, text) { if (!x) { console.log("FAILED: " + text); process.exit(1); } }
