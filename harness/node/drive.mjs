// drive.mjs: makes calls with generated TypeScript clients over HTTP.
// stdin: {"services": [{"name", "bundle": "file", "url", "jobs": [{"id", "method", "args": [...]}]}]}
// stdout: {"services": [{"endpoint", "methods": [names], "jobs": [{"id", "error", "none": bool, "result", "transported": [[method, n args, data is an array]]}]}]}
import fs from "node:fs";
import {pathToFileURL} from "node:url";

const input = JSON.parse(fs.readFileSync(0, "utf8"));

async function drive(service) {
	const out = {endpoint: "", methods: [], jobs: []};
	const mod = await import(pathToFileURL(service.bundle).href);
	const Client = mod[service.name + "Client"];
	if (typeof Client !== "function") {
		out.error = "no client";
		return out;
	}
	out.endpoint = Client.defaultEndpoint;
	out.methods = Object.getOwnPropertyNames(Client.prototype).filter((n) => n !== "constructor");
	let current;
	const transport = async (method, data) => {
		const job = current;
		job.transported.push([method, Array.isArray(data) ? data.length : -1]);
		if (job.reject) throw job.rejected;
		const res = await fetch(service.url + Client.defaultEndpoint + "/" + method, {
			method: "POST",
			headers: {"Content-Type": "application/json", "X-Job": String(job.id)},
			body: JSON.stringify(data),
		});
		const text = await res.text();
		if (res.status !== 200) throw new Error(res.status + " " + text);
		return JSON.parse(text);
	};
	const client = new Client(transport);
	for (const job of service.jobs) {
		const o = {id: job.id, transported: [], reject: job.reject, rejected: new Error("rejected " + job.id)};
		current = o;
		out.jobs.push(o);
		const method = Object.hasOwn(Client.prototype, job.method) && job.method !== "constructor" ? job.method : job.method + "_";
		if (typeof client[method] !== "function") {
			o.error = "the client has no method " + job.method;
			continue;
		}
		try {
			const p = client[method](...job.args);
			if (!(p instanceof Promise)) o.error = "no promise";
			const r = await p;
			if (o.reject) o.error = "the transport's rejection got lost";
			if (r === undefined) o.none = true;
			else o.result = r;
		} catch (e) {
			if (o.reject && e === o.rejected) o.error = "";
			else o.error = String(e?.stack ?? e);
		}
		delete o.rejected;
	}
	return out;
}

const services = await Promise.all(input.services.map((s) => drive(s).catch((e) => ({error: String(e?.stack ?? e), jobs: [], methods: [], endpoint: ""}))));
process.stdout.write(JSON.stringify({services}));
