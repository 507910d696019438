// check.mjs: typechecks the TypeScript of many directories under tsc --strict.
// stdin: {"lib": "path of typescript.js", "jobs": [{"name": "...", "dir": "..."}]}
// stdout: {"name": ["diagnostic", …], …}
import fs from "node:fs";
import path from "node:path";
import {createRequire} from "node:module";

const input = JSON.parse(fs.readFileSync(0, "utf8"));
const ts = createRequire(import.meta.url)(input.lib);
export const options = {
	strict: true,
	noEmit: true,
	target: ts.ScriptTarget.ES2020,
	module: ts.ModuleKind.ESNext,
	moduleResolution: ts.ModuleResolutionKind.Node10,
	lib: ["lib.es2020.d.ts"],
	types: [],
	ignoreDeprecations: "5.0",
};
const host = ts.createCompilerHost(options);
const original = host.getSourceFile.bind(host);
const libs = new Map();
host.getSourceFile = (name, ...rest) => {
	if (!path.basename(name).startsWith("lib.")) return original(name, ...rest);
	if (!libs.has(name)) libs.set(name, original(name, ...rest));
	return libs.get(name);
};

function list(dir) {
	return fs.readdirSync(dir, {withFileTypes: true, recursive: true})
		.filter((e) => e.isFile() && e.name.endsWith(".ts"))
		.map((e) => path.join(e.parentPath ?? e.path, e.name));
}

const out = {};
for (const job of input.jobs) {
	const diags = [];
	const files = list(job.dir);
	const program = ts.createProgram(files, options, host);
	const say = (d) => {
		let at = "";
		if (d.file) {
			const {line} = d.file.getLineAndCharacterOfPosition(d.start);
			at = path.relative(job.dir, d.file.fileName) + ":" + (line + 1) + ": " + d.file.text.split("\n")[line].trim() + ": ";
		}
		diags.push(at + "TS" + d.code + " " + ts.flattenDiagnosticMessageText(d.messageText, "\n"));
	};
	program.getOptionsDiagnostics().forEach(say);
	program.getGlobalDiagnostics().forEach(say);
	let statements = 0;
	for (const f of program.getSourceFiles()) {
		if (!files.includes(f.fileName)) continue;
		statements += f.statements.length;
		program.getSyntacticDiagnostics(f).forEach(say);
		program.getSemanticDiagnostics(f).forEach(say);
	}
	out[job.name] = {diags, files: files.length, statements};
}
process.stdout.write(JSON.stringify(out));
