// conform.mjs: judges whether JSON values conform to the types a generated
// TypeScript client declares, by walking the checker's types.
// stdin: {"lib": …, "groups": [{"name", "client": "file", "ambient": "file", "jobs": [{"service", "method", "results": n, "kind": "args"|"rets", "json": "[…]"}]}]}
// stdout: {"errors": [[{"job", "error"}]], "lax": [[what is declared and never seen]], "places": places judged so, "leaves": n, "kinds": {kind: n}, "constants": [types that are the type of a constant instead of its values']}
import fs from "node:fs";
import path from "node:path";
import {createRequire} from "node:module";
import {fileURLToPath} from "node:url";

const input = JSON.parse(fs.readFileSync(0, "utf8"));
const ts = createRequire(import.meta.url)(input.lib);
const here = path.dirname(fileURLToPath(import.meta.url));

const kinds = {}, constants = new Set();
let leaves = 0, placesSeen = 0;
const see = (k) => { kinds[k] = (kinds[k] ?? 0) + 1; leaves++; };
const show = (x) => { const s = JSON.stringify(x); return s === undefined ? "nothing" : s.length > 120 ? s.slice(0, 120) + "…" : s; };

// what the Go side puts into places without a type is marked
const MARK = "\u00a7any";
function marked(x) {
	if (x === null || typeof x === "string" && x.startsWith(MARK)) return true;
	if (Array.isArray(x)) return x.every(marked) && x.length > 0;
	return typeof x === "object" && Object.keys(x).length > 0 && Object.keys(x).every((k) => k.startsWith(MARK));
}

for (const group of input.groups) {
	const options = {strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Node10, lib: ["lib.es2020.d.ts"], types: [], ignoreDeprecations: "5.0"};
	const program = ts.createProgram([group.client, group.ambient], options);
	const checker = program.getTypeChecker();
	const file = program.getSourceFile(group.client);
	const exports = new Map(checker.getExportsOfModule(checker.getSymbolAtLocation(file)).map((s) => [s.name, s]));
	const F = ts.TypeFlags;
	const name = (t) => checker.typeToString(t);
	const isError = (t) => t.aliasSymbol?.name === "error" || t.symbol?.name === "error";

	// which kinds of values a place declares and which were seen in it
	const places = new Map();
	const kindOf = (x) => x === null ? "null" : Array.isArray(x) ? "array" : typeof x;
	function kindsOf(t, ks) {
		if (isError(t) || t.flags & (F.Any | F.Unknown)) return false;
		if (t.isUnion()) return t.types.every((m) => kindsOf(m, ks));
		if (t.flags & F.Null) ks.add("null");
		else if (t.flags & F.StringLike) ks.add("string");
		else if (t.flags & F.NumberLike) ks.add("number");
		else if (t.flags & F.BooleanLike) ks.add("boolean");
		else if (t.flags & F.Undefined) return true;
		else if (checker.isArrayType(t)) ks.add("array");
		else if (t.flags & F.Object && t.objectFlags & ts.ObjectFlags.Anonymous && t.symbol?.valueDeclaration && ts.isObjectLiteralExpression(t.symbol.valueDeclaration)) return false;
		else ks.add("object");
		return true;
	}
	function place(key, t, x) {
		let p = places.get(key);
		if (!p) {
			const ks = new Set();
			p = {n: 0, declared: kindsOf(t, ks) ? ks : new Set(), seen: new Set(), type: t};
			places.set(key, p);
		}
		p.n++;
		p.seen.add(kindOf(x));
	}

	// returns "" or what is wrong
	function conform(t, x, at) {
		if (isError(t)) { see("error"); return ""; }
		if (t.flags & (F.Any | F.Unknown)) {
			see("any");
			return marked(x) ? "" : `${at}: declared as any, which no interface is: ${show(x)}`;
		}
		if (t.isUnion()) return conformOne(t.types, x, at, name(t));
		const bad = `${at}: ${show(x)} is no ${name(t)}`;
		const prim = (ok, kind) => { if (ok) see(kind); return ok ? "" : bad; };
		if (t.flags & F.Undefined || t.flags & F.Void) return bad;
		if (t.flags & F.Null) return prim(x === null, "null");
		if (t.flags & F.EnumLiteral || t.flags & F.StringLiteral || t.flags & F.NumberLiteral) {
			if (t.value === undefined) return `${at}: an enum without value`;
			return prim(x === t.value, t.flags & F.EnumLiteral ? "enum" : "literal");
		}
		if (t.flags & F.BooleanLiteral) return prim(x === (t.intrinsicName === "true"), "boolean");
		if (t.flags & F.Boolean) return prim(typeof x === "boolean", "boolean");
		if (t.flags & F.String) return prim(typeof x === "string", "string");
		if (t.flags & F.Number) return prim(typeof x === "number", "number");
		if (t.flags & F.Object || t.isIntersection()) {
			if (checker.isArrayType(t)) {
				if (!Array.isArray(x)) return bad;
				see("array");
				const e = checker.getTypeArguments(t)[0];
				for (let i = 0; i < x.length; i++) {
					place(`elements of ${t.id} ${name(t)}`, e, x[i]);
					const w = conform(e, x[i], `${at}[${i}]`);
					if (w) return w;
				}
				return "";
			}
			const decl = t.symbol?.valueDeclaration;
			if (t.objectFlags & ts.ObjectFlags.Anonymous && typeof x !== "object" && decl && ts.isObjectLiteralExpression(decl)) {
				// typeof of a constant with the members of several enums
				const values = checker.getPropertiesOfType(t).map((p) => checker.getTypeOfSymbol(p));
				const w = conformOne(values, x, at, name(t));
				if (w === "") { constants.add(show(t.aliasSymbol?.name ?? name(t))); see("constants"); }
				return w;
			}
			if (x === null || typeof x !== "object" || Array.isArray(x)) return bad;
			see("object");
			const props = new Map(checker.getPropertiesOfType(t).map((p) => [p.name, p]));
			const record = !!(t.objectFlags & ts.ObjectFlags.Mapped);
			const str = checker.getIndexInfoOfType(t, ts.IndexKind.String), num = checker.getIndexInfoOfType(t, ts.IndexKind.Number);
			for (const [k, p] of props) {
				if (Object.hasOwn(x, k)) continue;
				// a Record over an enum lists the keys there may be
				if (!(p.flags & ts.SymbolFlags.Optional) && !record) return `${at}: ${k} of ${name(t)} is missing`;
				see("absent");
			}
			for (const k of Object.keys(x)) {
				const p = props.get(k);
				let pt;
				if (p) {
					pt = checker.getTypeOfSymbol(p);
				} else if (num && String(Number(k)) === k || num && /^-?[0-9]/.test(k)) {
					pt = num.type;
				} else if (str) {
					pt = str.type;
				} else {
					return `${at}: ${name(t)} does not declare ${JSON.stringify(k)}`;
				}
				// a struct with nothing but nil in it is empty, which omitempty omits
				if (!p || props.size > 1) place(p ? `${k} of ${t.id} ${name(t)}` : `values of ${t.id} ${name(t)}`, pt, x[k]);
				const w = conform(pt, x[k], !p ? `${at}[${JSON.stringify(k)}]` : `${at}.${k}`);
				if (w) return w;
			}
			return "";
		}
		return `${at}: cannot judge ${name(t)}`;
	}
	function conformOne(types, x, at, label) {
		let why = "";
		for (const m of types) {
			const w = conform(m, x, at);
			if (w === "") return "";
			if (w.startsWith(at + ".") || w.startsWith(at + "[")) why = w;
		}
		return why || `${at}: ${show(x)} is no ${label}`;
	}

	const methods = new Map();
	function method(service, m) {
		const key = service + "." + m;
		if (!methods.has(key)) {
			const cls = exports.get(service + "Client");
			if (!cls) { methods.set(key, null); return null; }
			const inst = checker.getDeclaredTypeOfSymbol(cls);
			const lc = m[0].toLowerCase() + m.slice(1);
			// the client has a constructor and a transport itself
			const own = (n) => n !== "constructor" && inst.getProperty(n)?.declarations?.some((d) => d.kind !== ts.SyntaxKind.Parameter) ? inst.getProperty(n) : undefined;
			const sym = own(lc) ?? own(lc + "_");
			methods.set(key, sym ? checker.getTypeOfSymbol(sym).getCallSignatures()[0] : null);
		}
		return methods.get(key);
	}
	group.errors = []; // by job
	group.jobs.forEach((job, i) => {
		const sig = method(job.service, job.method);
		const fail = (e) => group.errors.push({job: i, error: e});
		if (!sig) return fail("the TypeScript client has no such method");
		let values;
		try { values = JSON.parse(job.json); } catch (e) { return fail("no JSON: " + e.message); }
		if (!Array.isArray(values)) return fail(`no list: ${show(values)}`);
		let types;
		if (job.kind === "args") {
			types = sig.parameters.map((p) => checker.getTypeOfSymbol(p));
		} else {
			const value = checker.getTypeArguments(checker.getReturnTypeOfSignature(sig))[0];
			if (value.flags & F.Void) types = [];
			else if (job.results === 1) types = [value];
			else types = checker.getPropertiesOfType(value).map((p) => checker.getTypeOfSymbol(p));
		}
		if (types.length !== values.length) return fail(`${values.length} values for ${types.length} types`);
		for (let k = 0; k < values.length; k++) {
			place(`${job.kind === "args" ? "argument" : "result"} ${k} of ${job.service}.${job.method}`, types[k], values[k]);
			const w = conform(types[k], values[k], `${job.kind === "args" ? "argument" : "result"} ${k}`);
			if (w) return fail(w);
		}
	});
	group.lax = [];
	for (const [key, p] of places) {
		// values deep inside of others are always nil
		if (p.n < 150 || p.seen.size === 1 && p.seen.has("null")) continue;
		placesSeen++;
		for (const k of p.declared) {
			if (!p.seen.has(k)) group.lax.push(`${key}: declared as ${name(p.type)}, but none of ${p.n} values was ${k}`);
		}
	}
}
process.stdout.write(JSON.stringify({errors: input.groups.map((g) => g.errors), lax: input.groups.map((g) => g.lax), leaves, places: placesSeen, kinds, constants: [...constants].sort()}));
