// Runs the MVP wallet's libp2p page, for the harness: its component, its rendered table and its codecs are the real ones,
// around them are a module, an emitter and a browser that record. One history per line of input, one JSON text per answer.
"use strict";
const fs = require("fs");
const path = require("path");
const TOOLS = "/opt/veriftools/node/node_modules/";
const ts = require(TOOLS + "typescript");
const { compile } = require(TOOLS + "@vue/compiler-dom");
for (const k of ["log", "info", "warn", "debug", "trace", "error"]) console[k] = () => {};
const REPO = process.argv[1];
const PAGE = REPO + "/apps/wasm/mvp/web/pages/libp2p.vue";

const script = (text) => ts.transpileModule(text, { compilerOptions: { module: "commonjs", target: "es2020", esModuleInterop: true } }).outputText;
const codecs = new Map();
function codec(file) {
	if (!codecs.has(file)) {
		const m = { exports: {} };
		new Function("module", "exports", "require", script(fs.readFileSync(file, "utf8")))(m, m.exports, require);
		codecs.set(file, m.exports);
	}
	return codecs.get(file);
}
const list = (x) => (Array.isArray(x) ? x : Object.values(x ?? {}));
const by = (f) => (typeof f === "function" ? f : (x) => x?.[f]);
const plain = {
	filter: (x, f) => list(x).filter(by(f)),
	map: (x, f) => list(x).map(by(f)),
	size: (x) => (typeof x === "string" ? x.length : list(x).length),
	values: (x) => Object.values(x ?? {}),
	keys: (x) => Object.keys(x ?? {}),
	sumBy: (x, f) => list(x).reduce((n, y) => n + by(f)(y), 0),
	isEmpty: (x) => list(x).length === 0,
};
const chain = (x) => ({ ...Object.fromEntries(Object.entries(plain).map(([k, f]) => [k, (...a) => chain(f(x, ...a))])), value: () => x });
const lodash = Object.assign((x) => chain(x), plain, { chain });

// What the compiled template calls
const shown = (v) => (v === null || v === undefined ? "" : typeof v === "object" ? JSON.stringify(v, null, 2) : String(v));
const node = (type, props, children) => ({ type, props: props ?? {}, children: children === undefined || children === null ? [] : Array.isArray(children) ? children : typeof children === "object" && !children.type ? [] : [children] });
const Vue = new Proxy(
	{
		toDisplayString: shown,
		createElementVNode: node,
		createElementBlock: node,
		createVNode: node,
		createBlock: node,
		createStaticVNode: (html) => node("static", {}, html),
		createTextVNode: (text) => node("text", {}, String(text)),
		createCommentVNode: () => node("comment"),
		Fragment: "fragment",
		renderList: (x, f) => (typeof x === "number" ? [...Array(x).keys()].map((i) => f(i + 1, i)) : Array.isArray(x) ? x.map((v, i) => f(v, i)) : Object.keys(x ?? {}).map((k, i) => f(x[k], k, i))),
		resolveComponent: (n) => n,
		withDirectives: (v) => v,
		withModifiers: (f) => f,
		openBlock: () => {},
		normalizeClass: (c) => c,
		normalizeStyle: (c) => c,
	},
	{ get: (o, k) => (k in o ? o[k] : (x) => x), has: () => true },
);
const text = (n) => (typeof n === "string" ? n : n.children.map(text).join(""));
const find = (n, f, to = []) => {
	if (typeof n !== "object" || n === null) return to;
	if (f(n)) to.push(n);
	n.children.forEach((c) => find(c, f, to));
	return to;
};
const turn = () => new Promise((ok) => setImmediate(ok));

async function history(ops) {
	const source = fs.readFileSync(PAGE, "utf8");
	const render = new Function("Vue", compile(source.match(/<template>([\s\S]*)<\/template>/)[1], { mode: "function", prefixIdentifiers: false }).code)(Vue);
	const seen = { connects: [], alerts: [], looks: [] };
	let loaded, emitter, fails, pages = 0;
	const loading = new Promise((ok) => (loaded = ok));
	const wasm = {
		default: async () => loading,
		init_logger: () => {},
		set_event_emitter: (e) => (emitter = e),
		connect: async (bytes) => {
			seen.connects.push({ bytes: Buffer.from(bytes).toString("hex"), heard: emitter !== undefined });
			if (fails) throw new Error(fails);
			await new Promise(() => {});
		},
	};
	globalThis.alert = (t) => seen.alerts.push(String(t));
	const m = { exports: {} };
	const need = (name) => {
		if (name.endsWith(".vue")) return {};
		if (name === "lodash") return { __esModule: true, default: lodash, ...lodash };
		if (name === "vue") return { defineComponent: (c) => c, markRaw: (x) => x, toRaw: (x) => x, nextTick: turn };
		if (name === "events") return require("events");
		if (/pkg\/wasm$/.test(name)) return { __esModule: true, ...wasm };
		if (/\/utils$/.test(name)) return { initWasm: () => loading, downloadFile: () => {}, textToPath: () => "" };
		if (name.startsWith("~/") || name.startsWith(".")) {
			const file = name.startsWith("~/") ? REPO + "/apps/wasm/mvp/" + name.slice(2) : path.join(path.dirname(PAGE), name);
			return codec(file.endsWith(".ts") ? file : file + ".ts");
		}
		throw new Error("the page needs " + name);
	};
	new Function("module", "exports", "require", script(source.match(/<script[^>]*>([\s\S]*?)<\/script>/)[1]))(m, m.exports, need);
	const page = m.exports.default;
	const self = {};
	Object.assign(self, page.data?.call(self));
	for (const [k, f] of Object.entries(page.methods ?? {})) self[k] = f.bind(self);
	for (const [k, f] of Object.entries(page.computed ?? {})) Object.defineProperty(self, k, { get: () => (f.get ?? f).call(self) });
	for (const h of ["beforeCreate", "created", "beforeMount", "mounted"]) page[h]?.call(self);
	const draw = () => node("page", {}, [render(self, [])].flat());
	for (const [op, a] of ops) {
		if (op === "load") loaded();
		if (op === "address") find(draw(), (n) => n.type === "input" && n.props["onUpdate:modelValue"])[0].props["onUpdate:modelValue"](a);
		if (op === "connect") {
			fails = a;
			const b = find(draw(), (n) => n.type === "button" && /connect/i.test(text(n)))[0];
			b?.props.onClick?.({});
		}
		if (op === "update") emitter?.emit("update", new Uint8Array(Buffer.from(a, "hex")));
		await turn();
		if (op === "look") {
			const t = draw();
			const rows = find(t, (n) => n.type === "tr").map((r) => find(r, (n) => n.type === "th" || n.type === "td").map((c) => text(c).trim()));
			seen.looks.push({ rows, text: text(t) });
		}
	}
	return seen;
}
require("readline")
	.createInterface({ input: process.stdin })
	.on("line", (line) => history(JSON.parse(line)).then((s) => s, (e) => ({ error: `${e.stack ?? e}` })).then((s) => process.stdout.write(JSON.stringify(s) + "\n")))
	.on("close", () => process.exit(0));
