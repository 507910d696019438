package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verifharness/rt"
)

func init() { checks["P21"] = p21 }

type tsJob struct {
	Name string `json:"name"`
	Dir  string `json:"dir"`
}

type tsResult struct {
	Diags      []string `json:"diags"`
	Files      int      `json:"files"`
	Statements int      `json:"statements"`
}

// typecheck checks the TypeScript of workspaces in several node processes.
func typecheck(r *rt.Report, jobs []tsJob) map[string]tsResult {
	const procs = 6
	parts := make([][]tsJob, procs)
	for i, j := range jobs {
		parts[i%procs] = append(parts[i%procs], j)
	}
	results := make([]map[string]tsResult, procs)
	each(parts, func(i int, jobs []tsJob) {
		if len(jobs) > 0 {
			rt.Node(r, "check.mjs", map[string]interface{}{"lib": rt.TypeScriptLib, "jobs": jobs}, &results[i])
		}
	})
	all := map[string]tsResult{}
	for _, rs := range results {
		for k, v := range rs {
			all[k] = v
		}
	}
	return all
}

// p21 generates TypeScript for hostile and for random services and typechecks it.
func p21(r *rt.Report) {
	r.Rule = "each case is one service with all its modules typechecked under tsc --strict; distinct by workspace"
	r.Assume = []string{"a service is accepted when the generator exits 0", "Go's error type is declared by the user (type error = any)"}
	ws := []*wspace{fixtureSpace(r)}
	for _, f := range caseFiles() {
		ws = append(ws, caseSpace(r, f))
	}
	for i := 0; i < r.N(14, 200); i++ {
		ws = append(ws, randomSpace(r, r.Seed*10000+5000+int64(i)))
	}
	for i := 0; i < r.N(16, 200); i++ {
		ws = append(ws, constSpace(r, r.Seed*10000+6000+int64(i)))
	}
	accepted := make([]bool, len(ws))
	each(ws, func(i int, w *wspace) {
		res := w.generate(r)
		accepted[i] = res.code == 0 && !res.timeout
		if !accepted[i] {
			r.Count("services refused", 1)
			return
		}
		put(w.dir, "ts/ambient.d.ts", rt.Ambient)
	})
	var jobs []tsJob
	for i, w := range ws {
		if accepted[i] {
			jobs = append(jobs, tsJob{w.name, filepath.Join(w.dir, "ts")})
		}
	}
	results := typecheck(r, jobs)
	for i, w := range ws {
		if !accepted[i] {
			continue
		}
		res, ok := results[w.name]
		if !ok {
			r.Broken("%s was not typechecked", w.name)
			continue
		}
		if res.Files < 2 || res.Statements < 2 {
			r.Broken("%s: only %d files with %d statements", w.name, res.Files, res.Statements)
		}
		r.Count("modules typechecked", res.Files)
		r.Count("statements typechecked", res.Statements)
		r.Case(w.name)
		if len(res.Diags) > 0 {
			r.Violate(w.key("tsc"), "%s: %d errors:\n    %s", w.name, len(res.Diags), head(strings.Join(res.Diags, "\n    "), 1500))
		}
		if i%20 == 0 {
			r.Sample(map[string]string{"workspace": w.name, "checked": fmt.Sprint(res.Files, " files, ", res.Statements, " statements")})
		}
	}
	r.AtLeast("modules typechecked", 150)
	r.AtLeast("statements typechecked", 800)
}
