package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"verifharness/allreg"
	"verifharness/rt"
)

func init() { checks["P22"] = p22 }

type conformJob struct {
	Service string `json:"service"`
	Method  string `json:"method"`
	Kind    string `json:"kind"`
	Results int    `json:"results"`
	JSON    string `json:"json"`
	key     string
}

type conformGroup struct {
	Name    string       `json:"name"`
	Client  string       `json:"client"`
	Ambient string       `json:"ambient"`
	Jobs    []conformJob `json:"jobs"`
}

type conformResult struct {
	Errors [][]struct {
		Job   int    `json:"job"`
		Error string `json:"error"`
	} `json:"errors"`
	Lax       [][]string     `json:"lax"`
	Leaves    int            `json:"leaves"`
	Places    int            `json:"places"`
	Kinds     map[string]int `json:"kinds"`
	Constants []string       `json:"constants"`
}

// tsClient is the file of the client generated for a service's package.
func tsClient(s *rt.Service) (file string) {
	name := s.Pkg[strings.LastIndex(s.Pkg, "/")+1:]
	file = "ts/" + name + "/client.ts"
	if name == "fx" {
		file = "ts/fx-client.ts"
	}
	file, _ = filepath.Abs(file)
	return file
}

const anyMark = "\u00a7any"

// typedGen generates what TypeScript can describe: constants of enumerated
// types and one member of every union. What goes into places without a type is marked.
func typedGen(seed int64) *rt.Gen {
	g := gen(seed, rt.JSON)
	g.Big = false
	g.Consts = allreg.Consts
	depth := 0
	g.Choose = func(g *rt.Gen, t reflect.Type) (v reflect.Value, ok bool) {
		v = reflect.New(t).Elem()
		switch {
		case t == rt.TypeErr:
			if g.R.Intn(2) == 0 {
				v.Set(reflect.ValueOf(errors.New(g.Str())))
			}
			return v, true
		case t.Kind() == reflect.Interface && t.NumMethod() == 0:
			if x := markedValue(g.R); x != nil {
				v.Set(reflect.ValueOf(x))
			}
			return v, true
		case t.Kind() == reflect.String && (t.Name() == "code" || t.Name() == "StrToo" || t.Name() == "FarKind"):
			v.SetString(map[string][]string{"code": {"A", "B"}, "StrToo": {"one", "two"}, "FarKind": {"a", "b"}}[t.Name()][g.R.Intn(2)])
			return v, true
		case t.Name() == "EmbedsPtr":
			// what nil embedded pointers become is a case of its own
			for i := 0; i < t.NumField(); i++ {
				for f := v.Field(i); f.IsZero(); {
					f.Set(g.Value(f.Type()))
				}
			}
			return v, true
		case isUnion(t):
			f := v.Field(g.R.Intn(t.NumField()))
			for f.IsZero() {
				f.Set(g.Value(f.Type()))
			}
			return v, true
		case hasLiterals(t):
			depth++
			defer func() { depth-- }()
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if lit, ok := strings.CutPrefix(f.Tag.Get("gotsrpc"), "type:'"); ok {
					v.Field(i).SetString(strings.TrimSuffix(lit, "'"))
				} else if k := f.Type.Kind(); depth < 4 || k != reflect.Slice && k != reflect.Map {
					v.Field(i).Set(g.Value(f.Type))
				}
			}
			return v, true
		}
		return v, false
	}
	return g
}

// orEmptyList is the body, which may be empty without arguments.
func orEmptyList(b []byte) []byte {
	if len(b) == 0 {
		return []byte("[]")
	}
	return b
}

// hasLiterals tells structs with fields of literal types.
func hasLiterals(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		if strings.HasPrefix(t.Field(i).Tag.Get("gotsrpc"), "type:'") {
			return true
		}
	}
	return false
}

func markedValue(r *rand.Rand) interface{} {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []interface{}{anyMark, anyMark + "2"}
	case 2:
		return map[string]interface{}{anyMark: 1.5, anyMark + "b": true}
	default:
		return anyMark
	}
}

// p22 collects the JSON that proxies and Go clients send and has it judged by
// the TypeScript compiler's understanding of the generated types.
func p22(r *rt.Report) {
	r.Rule = "each case is one list of results sent by a proxy or of arguments sent by a generated Go client, walked along the types the generated TypeScript client declares; distinct by (method, direction, JSON)"
	r.Assume = []string{
		"values of enumerated types are their constants",
		"a Record over an enum lists the keys there may be",
		"what Go's error type declares is up to the user",
	}
	ambient := filepath.Join(r.Scratch, "ambient.d.ts")
	if err := os.WriteFile(ambient, []byte("declare global { interface error { isError: never } }\nexport {};\n"), 0o644); err != nil {
		r.Broken("%v", err)
		return
	}
	n := r.N(100, 1200)
	groups := map[string]*conformGroup{}
	var order []*conformGroup
	for si, s := range services {
		file := tsClient(s)
		g := groups[file]
		if g == nil {
			g = &conformGroup{Name: s.Pkg, Client: file, Ambient: ambient}
			groups[file] = g
			order = append(order, g)
		}
		rc := &recorder{}
		h := s.Default(rc.hook)
		tap := newTapper(s, rt.JSON)
		add := func(sig rt.Sig, kind string, b []byte) {
			g.Jobs = append(g.Jobs, conformJob{s.Name, sig.Name, kind, len(sig.Out), string(b), s.Name + "." + sig.Name + ":" + kind})
		}
		for mi, sig := range s.Sigs() {
			for i := 0; i < n; i++ {
				g := typedGen(r.Seed*1e9 + int64(si)*1e7 + int64(mi)*1e5 + int64(i))
				in, out := values(g, sig.In), values(g, sig.Out)
				b, err := tap.body(sig.Name, in)
				if err != nil || b == nil {
					r.Violate(s.Name+"."+sig.Name+":args", "%s.%s: no request: %v", s.Name, sig.Name, err)
					continue
				}
				if len(sig.In) > 0 {
					add(sig, "args", b)
				}
				b = orEmptyList(b)
				if s.Name == "UnionService" {
					b = []byte("[1]")
				}
				rc.set(ifaces(out))
				a := put(h, "POST", s.Endpoint()+"/"+sig.Name, ctJSON, bytes.NewReader(b))
				if len(rc.take()) != 1 || a.panicky != "" || a.status != 200 {
					r.Violate(s.Name+"."+sig.Name+":rets", "%s.%s with %s: status %d %s%s", s.Name, sig.Name, b, a.status, a.body, a.panicky)
					continue
				}
				add(sig, "rets", a.body)
				if len(sig.In)+len(sig.Out) == 0 {
					break
				}
			}
		}
	}
	for _, probe := range []struct{ key, service, method string }{
		{"nil-embedded", "Shapes", "Ptr"}, {"zero-union", "UnionService", "Pet"}, {"zero-union", "UnionService", "Valued"},
	} {
		s := service(probe.service)
		rc := &recorder{}
		for _, sig := range s.Sigs() {
			if sig.Name != probe.method {
				continue
			}
			rc.set([]interface{}{reflect.Zero(sig.Out[0]).Interface()})
			body, _ := newTapper(s, rt.JSON).body(sig.Name, []reflect.Value{reflect.Zero(sig.In[0])})
			a := put(s.Default(rc.hook), "POST", s.Endpoint()+"/"+sig.Name, ctJSON, bytes.NewReader(body))
			if a.status != 200 {
				r.Violate(s.Name+"."+sig.Name+":rets", "%s.%s: status %d %s%s", s.Name, sig.Name, a.status, a.body, a.panicky)
				continue
			}
			g := groups[tsClient(s)]
			g.Jobs = append(g.Jobs, conformJob{s.Name, sig.Name, "rets", 1, string(a.body), probe.key})
		}
	}
	const procs = 6
	parts := splitGroups(order, procs)
	results := make([]conformResult, len(parts))
	done := make(chan int)
	for i := range parts {
		go func(i int) {
			rt.Node(r, "conform.mjs", map[string]interface{}{"lib": rt.TypeScriptLib, "groups": parts[i]}, &results[i])
			done <- i
		}(i)
	}
	for range parts {
		<-done
	}
	constants := map[string]bool{}
	for i, part := range parts {
		res := results[i]
		if len(res.Errors) != len(part) {
			r.Broken("a part was not judged")
			continue
		}
		for k, n := range res.Kinds {
			r.Count("values judged as "+k, n)
		}
		r.Count("places whose declared kinds were all seen", res.Places)
		for _, c := range res.Constants {
			constants[c] = true
		}
		for gi, g := range part {
			for _, j := range g.Jobs {
				r.Case(j.key + j.JSON)
				r.Count("lists judged", 1)
				r.See("methods", g.Name+j.Service+"."+j.Method)
			}
			for _, w := range res.Lax[gi] {
				r.Violate("lax:"+w, "%s: %s", g.Name, w)
			}
			for _, e := range res.Errors[gi] {
				j := g.Jobs[e.Job]
				r.Violate(j.key, "%s %s: %s\n    json: %.1500s", g.Name, j.key, e.Error, j.JSON)
			}
			if len(g.Jobs) > 0 {
				j := g.Jobs[len(g.Jobs)/2]
				r.Sample(map[string]string{"list": j.key, "json": fmt.Sprintf("%.400s", j.JSON)})
			}
		}
	}
	for c := range constants {
		r.Violate("constants", "the type of the union of constants %s is the type of the object with the constants, not of its values, which are sent", c)
	}
	r.AtLeast("lists judged", 10000)
	r.AtLeast("places whose declared kinds were all seen", 200)
	for _, k := range []string{"null", "enum", "literal", "boolean", "string", "number", "array", "object", "absent", "any"} {
		r.AtLeast("values judged as "+k, 300)
	}
}

// splitGroups spreads the jobs over processes.
func splitGroups(groups []*conformGroup, procs int) [][]conformGroup {
	total := 0
	for _, g := range groups {
		total += len(g.Jobs)
	}
	per := total/procs + 1
	var parts [][]conformGroup
	room := 0
	for _, g := range groups {
		jobs := g.Jobs
		for len(jobs) > 0 {
			if room == 0 {
				parts = append(parts, nil)
				room = per
			}
			k := min(room, len(jobs))
			c := *g
			c.Jobs = jobs[:k]
			jobs = jobs[k:]
			room -= k
			parts[len(parts)-1] = append(parts[len(parts)-1], c)
		}
	}
	return parts
}
