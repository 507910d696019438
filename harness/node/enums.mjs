// enums.mjs: evaluates bundled TypeScript modules and tells what their aliases are.
// stdin: {"lib", "jobs": [{"name", "modules": [{"ts": "file.ts", "js": "bundle.mjs"}]}]}
// stdout: {"jobs": [{"modules": [{"error", "objects": {name: {member: value}}, "aliases": {name: type}}]}]}
import fs from "node:fs";
import {createRequire} from "node:module";
import {pathToFileURL} from "node:url";

const input = JSON.parse(fs.readFileSync(0, "utf8"));
const ts = createRequire(import.meta.url)(input.lib);
const options = {strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Node10, noLib: true, types: [], ignoreDeprecations: "5.0"};

const out = [];
for (const job of input.jobs) {
	const program = ts.createProgram((job.modules ?? []).map((m) => m.ts), options);
	const checker = program.getTypeChecker();
	const modules = [];
	for (const m of job.modules ?? []) {
		const o = {objects: {}, aliases: {}};
		modules.push(o);
		try {
			const mod = await import(pathToFileURL(m.js).href);
			for (const [name, x] of Object.entries(mod)) {
				if (typeof x !== "object" || x === null) { o.objects[name] = {"": String(x)}; continue; }
				const members = {};
				for (const [k, v] of Object.entries(x)) {
					// numeric enums map back
					if (typeof v === "string" && !Number.isNaN(Number(k)) && Object.hasOwn(x, v) && x[v] === Number(k)) continue;
					members[k] = v;
				}
				o.objects[name] = members;
			}
			const file = program.getSourceFile(m.ts);
			const symbol = checker.getSymbolAtLocation(file);
			for (const s of symbol ? checker.getExportsOfModule(symbol) : []) {
				if (s.flags & ts.SymbolFlags.TypeAlias) o.aliases[s.name] = checker.typeToString(checker.getDeclaredTypeOfSymbol(s), undefined, ts.TypeFormatFlags.InTypeAlias);
			}
		} catch (e) {
			o.error = String(e?.stack ?? e);
		}
	}
	out.push({modules});
}
process.stdout.write(JSON.stringify({jobs: out}));
