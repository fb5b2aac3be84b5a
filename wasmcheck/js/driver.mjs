// Runs lookups of the real doh_lookup.js on request; every call into the bindings and every
// fetch is answered by the process at the other end of stdin and stdout.
import fs from "node:fs";
globalThis.console = new console.Console(process.stderr);
let buf = Buffer.alloc(0), activity = 0;
function line() {
	const chunk = Buffer.alloc(65536);
	for (;;) {
		const i = buf.indexOf(10);
		if (i >= 0) { const l = buf.subarray(0, i).toString(); buf = buf.subarray(i + 1); return l; }
		let n = 0;
		try { n = fs.readSync(0, chunk); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code !== "EOF") throw e; }
		if (n === 0) process.exit(0);
		buf = Buffer.concat([buf, chunk.subarray(0, n)]);
	}
}
function send(o) {
	const b = Buffer.from(JSON.stringify(o) + "\n");
	for (let i = 0; i < b.length;) { try { i += fs.writeSync(1, b, i); } catch (e) { if (e.code !== "EAGAIN") throw e; } }
}
globalThis.__call = o => { activity++; send(o); return JSON.parse(line()); };
const turns = async n => { for (let i = 0; i < n; i++) await new Promise(r => setImmediate(r)); };
globalThis.fetch = async (input, init) => {
	const req = new Request(input, init);
	const body = Buffer.from(await req.arrayBuffer()).toString("hex");
	const h = {};
	for (const [k, v] of req.headers) h[k] = v;
	const r = __call({op: "fetch", url: req.url, method: req.method, headers: h, body});
	await turns(r.turns);
	activity++;
	if (r.throws !== null) {
		switch (r.as) {
			case 0: throw new TypeError(r.throws);
			case 1: throw new DOMException(r.throws, "AbortError");
			case 2: throw r.throws;
			default: throw new Error(r.throws);
		}
	}
	const data = Buffer.from(r.data, "hex");
	let stream = null;
	if (![101, 204, 205, 304].includes(r.status)) stream = new ReadableStream({
		async pull(c) {
			activity++;
			if (!this.left) this.left = r.pieces.slice();
			if (this.left.length) {
				const [a, b] = this.left.shift();
				await turns(1);
				if (b > a) c.enqueue(new Uint8Array(data.subarray(a, b)));
				else return this.pull(c);
			} else if (r.breaks !== null) c.error(new TypeError(r.breaks));
			else c.close();
		},
	});
	return new Response(stream, {status: r.status, headers: {"content-type": r.status < 300 ? "application/dns-message" : "text/html"}});
};
let lookup;
try {
	const m = await import("./doh_lookup.js");
	lookup = m.lookup_doh;
	if (typeof lookup !== "function") throw new Error("lookup_doh is not exported");
	send({op: "ready"});
} catch (e) { send({op: "broken", text: String(e && e.stack || e)}); process.exit(0); }
process.on("unhandledRejection", e => send({op: "unhandled", text: String(e)}) );
for (;;) {
	const job = JSON.parse(line());
	const results = job.lookups.map(() => null);
	const all = Promise.all(job.lookups.map(async (l, i) => {
		await turns(l.after);
		try { const v = await lookup(l.domain, l.ty, l.endpoint); results[i] = {type: typeof v, text: String(v)}; }
		catch (e) { results[i] = {type: "thrown", text: String(e)}; }
		activity++;
	}));
	// nothing left that could happen, for three seconds, means it never ends
	let done = false;
	const watch = (async () => {
		for (let idle = 0, last = -1; idle < 60 && !done; idle++) { if (activity !== last) { idle = 0; last = activity; } await new Promise(r => setTimeout(r, 50)); }
	})();
	await Promise.race([all, watch]);
	done = true;
	// what a lookup leaves behind comes to its end before the next one starts
	for (let last = -1; activity !== last;) { last = activity; await turns(30); }
	send({op: "done", results: results.map(r => r ?? {type: "never", text: ""})});
}
