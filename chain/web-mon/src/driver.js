// Runs the functions of the real modules for the harness, which answers what they fetch. One JSON text per line.
"use strict";
const send = (o) => process.stdout.write(JSON.stringify(o) + "\n");
for (const k of ["log", "info", "warn", "debug", "trace"]) console[k] = console.error;
const waiting = new Map();
let fetches = 0;
globalThis.fetch = async (input, init) => {
	const request = new Request(input, init);
	const body = await request.text();
	const id = fetches++;
	return await new Promise((ok, err) => {
		waiting.set(id, { ok, err });
		send({ fetch: id, url: request.url, method: request.method, type: request.headers.get("content-type"), body });
	});
};
const described = (e) => (typeof e === "string" ? { str: e } : { other: e instanceof Error ? `${e.name}: ${e.message}` : String(e) });
const value = (v) => {
	if (v === undefined) return { undef: true };
	if (v === null || typeof v === "boolean" || typeof v === "number" || typeof v === "string") return { plain: v };
	return { other: String(v) };
};
// A module that is given by its text, with the state it keeps
const texts = new Map();
const inline = (text) => {
	if (!texts.has(text)) {
		const m = { exports: {} };
		new Function("module", "exports", text)(m, m.exports);
		texts.set(text, m.exports);
	}
	return texts.get(text);
};
const arg = (a) => (a === null ? undefined : typeof a?.$big === "string" ? BigInt(a.$big) : typeof a?.$num === "string" ? Number(a.$num) : a);
async function call(id, module, name, args) {
	try {
		const m = module.startsWith("inline:") ? inline(module.slice(7)) : await import(module);
		const f = m[name] ?? m.default?.[name];
		if (typeof f !== "function") throw new Error(`${module} has no function ${name}`);
		send({ done: id, ok: value(await f(...args.map(arg))) });
	} catch (e) {
		send({ done: id, err: described(e) });
	}
}
require("readline")
	.createInterface({ input: process.stdin })
	.on("line", (line) => {
		const m = JSON.parse(line);
		if ("call" in m) {
			call(m.call, m.module, m.name, m.args);
		} else {
			const w = waiting.get(m.reply);
			waiting.delete(m.reply);
			if (m.fail !== undefined) w.err(new TypeError(m.fail));
			else w.ok(new Response(m.body, { status: m.status, headers: { "content-type": m.type } }));
		}
	})
	.on("close", () => process.exit(0));
