// Stands in for what wasm-bindgen generates: the same exports and conventions, served by the
// real bindings in the process which started this one.
const call = globalThis.__call;
let ready = false, starting = null;
const up = () => { if (!ready) throw new TypeError("Cannot read properties of undefined (wasm is not initialised)"); };
const str = s => {
	if (typeof s !== "string") { const n = s.length; if (s.charCodeAt === undefined && !(n > 0)) throw new TypeError("arg.charCodeAt is not a function"); }
	return s.toWellFormed();
};
const bytes = a => { const n = a.length >>> 0, b = new Uint8Array(n); b.set(a.subarray ? a.subarray(0, n) : Array.from(a).slice(0, n)); return Buffer.from(b).toString("hex"); };
const opt = h => h === null ? undefined : new Uint8Array(Buffer.from(h, "hex"));
export class WASMProofBuilder {
	__wbg_ptr = 0;
	static __wrap(n) { const o = Object.create(WASMProofBuilder.prototype); o.__wbg_ptr = n; return o; }
	__destroy_into_raw() { const p = this.__wbg_ptr; this.__wbg_ptr = 0; return p; }
	free() { const p = this.__destroy_into_raw(); if (p) call({op: "free", b: p}); }
	[Symbol.dispose]() { this.free(); }
}
const ptr = b => {
	if (!(b instanceof WASMProofBuilder)) throw new Error("expected instance of WASMProofBuilder");
	if (b.__wbg_ptr === 0) throw new Error("null pointer passed to rust");
	return b.__wbg_ptr;
};
export function init_proof_builder(name, ty) { up(); const r = call({op: "new", name: str(name), ty: (ty & 0xffff)}); return r.b === null ? undefined : WASMProofBuilder.__wrap(r.b); }
export function process_query_response(b, a) { up(); const p = ptr(b); call({op: "response", b: p, data: bytes(a)}); }
export function get_next_query(b) { up(); return opt(call({op: "query", b: ptr(b)}).data); }
export function get_unverified_proof(b) { up(); ptr(b); return opt(call({op: "proof", b: b.__destroy_into_raw()}).data); }
export function verify_byte_stream(a) { up(); return call({op: "verify", data: bytes(a)}).text; }
export function initSync() { ready = true; return {}; }
export default async function init() {
	if (ready) return {};
	starting ??= (async () => { for (let i = 0; i < 3; i++) await new Promise(r => setImmediate(r)); ready = true; })();
	await starting;
	return {};
}
