package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"verifharness/rt"
)

func init() { checks["P23"] = p23 }

type driveJob struct {
	ID     int             `json:"id"`
	Method string          `json:"method"`
	Args   json.RawMessage `json:"args"`
	Reject bool            `json:"reject"`

	sig     rt.Sig
	in, out []reflect.Value
	mu      sync.Mutex
	events  []event
	paths   []string
	status  []int
	reply   []byte
}

type driveService struct {
	Name   string      `json:"name"`
	Bundle string      `json:"bundle"`
	URL    string      `json:"url"`
	Jobs   []*driveJob `json:"jobs"`
	s      *rt.Service
}

type driven struct {
	Error    string   `json:"error"`
	Endpoint string   `json:"endpoint"`
	Methods  []string `json:"methods"`
	Jobs     []struct {
		ID          int             `json:"id"`
		Error       string          `json:"error"`
		None        bool            `json:"none"`
		Result      json.RawMessage `json:"result"`
		Transported [][]interface{} `json:"transported"`
	} `json:"jobs"`
}

// bundle makes JavaScript of generated TypeScript clients.
func bundle(r *rt.Report, files []string) (bundles map[string]string, ok bool) {
	bundles = map[string]string{}
	for i, f := range files {
		out := filepath.Join(r.Scratch, fmt.Sprintf("client%d.mjs", i))
		c := exec.Command(rt.NodeModules+"/.bin/esbuild", f, "--bundle", "--format=esm", "--target=es2022", "--log-level=warning", "--outfile="+out)
		if o, err := c.CombinedOutput(); err != nil {
			r.Violate("bundle:"+f, "%s cannot be bundled: %v\n%.2000s", f, err, o)
			return nil, false
		}
		bundles[f] = out
	}
	return bundles, true
}

func lcFirst(s string) string {
	c, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToLower(c)) + s[n:]
}

// resultNames are the properties of what a TypeScript client resolves to.
func resultNames(s *rt.Service, sig rt.Sig) (names []string) {
	declared := s.RetNames[sig.Name]
	for i := range sig.Out {
		name := ""
		if i < len(declared) {
			name = declared[i]
		}
		if name == "" || name == "_" {
			name = "ret"
			if i > 0 {
				name += "_" + strconv.Itoa(i)
			}
		}
		names = append(names, name)
	}
	return names
}

// configured is a service's endpoint in the configuration.
func configured(s *rt.Service) string {
	file := s.Pkg[strings.LastIndex(s.Pkg, "/")+1:] + ".yml"
	if file == "fx.yml" {
		file = "gotsrpc.yml"
	}
	b, _ := os.ReadFile(file)
	for _, m := range endpointLine.FindAllStringSubmatch(string(b), -1) {
		if m[2] == s.Name {
			return m[1]
		}
	}
	return "?"
}

var endpointLine = regexp.MustCompile(`(?m)^\s+"?(/\S*?)"?: (\w+)$`)

func parsed(b []byte) (x interface{}, err error) {
	err = json.Unmarshal(b, &x)
	return x, err
}

// p23 has node call proxies with the generated TypeScript clients.
func p23(r *rt.Report) {
	r.Rule = "each case is one call of a generated TypeScript client's method run by node over an HTTP transport posting JSON, observed at the transport, at the service and at the caller; distinct by (service, method, arguments, results)"
	r.Assume = []string{
		"numbers are such that JavaScript represents them exactly",
		"the transport posts its arguments as JSON to defaultEndpoint + '/' + method, as the documentation's transports do",
	}
	n := r.N(40, 900)
	id := 0
	jobs := map[int]*driveJob{}
	var all []*driveService
	var files []string
	seenFile := map[string]bool{}
	for si, s := range services {
		f := tsClient(s)
		if !seenFile[f] {
			seenFile[f] = true
			files = append(files, f)
		}
		d := &driveService{Name: s.Name, Bundle: f, s: s}
		rc := &recorder{}
		h := s.Default(rc.hook)
		var one sync.Mutex
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			one.Lock()
			defer one.Unlock()
			k, _ := strconv.Atoi(q.Header.Get("X-Job"))
			j := jobs[k]
			if j == nil {
				http.Error(w, "whose call is this?", http.StatusTeapot)
				return
			}
			rec := httptest.NewRecorder()
			rc.set(ifaces(j.out))
			rc.take()
			h.ServeHTTP(rec, q)
			j.mu.Lock()
			j.events = append(j.events, rc.take()...)
			j.paths = append(j.paths, q.URL.Path)
			j.status = append(j.status, rec.Code)
			j.reply = rec.Body.Bytes()
			j.mu.Unlock()
			for k, v := range rec.Header() {
				w.Header()[k] = v
			}
			w.WriteHeader(rec.Code)
			_, _ = w.Write(rec.Body.Bytes())
		}))
		defer srv.Close()
		d.URL = srv.URL
		tap := newTapper(s, rt.JSON)
		for mi, sig := range s.Sigs() {
			k := n
			if len(sig.In)+len(sig.Out) == 0 {
				k = 2
			}
			for i := 0; i < k; i++ {
				g := gen(r.Seed*1e9+int64(si)*1e7+int64(mi)*1e5+int64(i), rt.JSON)
				g.Big = i == 0
				if s.Name == "UnionService" {
					g = typedGen(r.Seed*1e9 + int64(mi)*1e5 + int64(i))
				}
				g.JSSafe = true
				id++
				j := &driveJob{ID: id, Method: lcFirst(sig.Name), sig: sig, in: values(g, sig.In), out: values(g, sig.Out), Reject: i%16 == 15}
				b, err := tap.body(sig.Name, j.in)
				if err != nil || b == nil {
					r.Broken("%s.%s: no arguments: %v", s.Name, sig.Name, err)
					continue
				}
				j.Args = orEmptyList(b)
				jobs[id] = j
				d.Jobs = append(d.Jobs, j)
			}
		}
		all = append(all, d)
	}
	bundles, ok := bundle(r, files)
	if !ok {
		return
	}
	for _, d := range all {
		d.Bundle = bundles[d.Bundle]
	}
	var out struct {
		Services []driven `json:"services"`
	}
	if !rt.Node(r, "drive.mjs", map[string]interface{}{"services": all}, &out) {
		return
	}
	if len(out.Services) != len(all) {
		r.Broken("%d of %d services were driven", len(out.Services), len(all))
		return
	}
	for si, d := range all {
		o := out.Services[si]
		name := d.s.Pkg + " " + d.Name
		if o.Error != "" {
			r.Violate(name, "%s: %s", name, o.Error)
			continue
		}
		if want := configured(d.s); o.Endpoint != want {
			r.Violate(name+":endpoint", "%s: defaultEndpoint is %q, wanted %q", name, o.Endpoint, want)
		}
		r.Count("endpoints compared", 1)
		if len(o.Methods) != len(d.s.Methods) {
			r.Violate(name+":methods", "%s: the client has the methods %v, the service %v", name, o.Methods, d.s.Methods)
		}
		if len(o.Jobs) != len(d.Jobs) {
			r.Broken("%s: %d of %d calls were made", name, len(o.Jobs), len(d.Jobs))
			continue
		}
		for i, j := range d.Jobs {
			c := o.Jobs[i]
			key := name + "." + j.sig.Name
			r.Case(key + string(j.Args) + string(j.reply))
			r.See("methods", key)
			bad := func(format string, a ...interface{}) {
				r.Violate(key, "%s(%.600s): %s", key, j.Args, fmt.Sprintf(format, a...))
			}
			if c.Error != "" {
				bad("%s", c.Error)
				continue
			}
			if len(c.Transported) != 1 || c.Transported[0][0] != j.sig.Name || c.Transported[0][1] != float64(len(j.sig.In)) {
				bad("the transport was called with (method, number of arguments) %v, wanted one call of %s with %d", c.Transported, j.sig.Name, len(j.sig.In))
				continue
			}
			if j.Reject {
				if len(j.events) != 0 {
					bad("a call whose transport failed was executed")
				}
				r.Count("failures of the transport passed on", 1)
				continue
			}
			if len(j.events) != 1 || j.events[0].method != j.sig.Name || j.events[0].svc != d.Name {
				bad("%d executions (%v), wanted one; requests to %v answered %v", len(j.events), j.events, j.paths, j.status)
				continue
			}
			r.Count("executions observed", 1)
			if want := d.s.Endpoint() + "/" + j.sig.Name; j.paths[0] != want {
				bad("posted to %s, wanted %s", j.paths[0], want)
			}
			for k, v := range j.in {
				if w := rt.DiffV(rt.JSON, v, typed(v.Type(), j.events[0].args[k])); w != "" {
					bad("argument %d arrived differently: %s", k, w)
				}
				r.Count("arguments compared", 1)
			}
			reply, err := parsed(j.reply)
			list, isList := reply.([]interface{})
			if err != nil || !isList && len(j.out) > 0 {
				bad("the reply is no list: %s", j.reply)
				continue
			}
			if len(j.out) == 0 {
				if !c.None {
					bad("resolved to %s, wanted nothing", c.Result)
				}
				r.Count("calls resolved to nothing", 1)
				continue
			}
			got, err := parsed(c.Result)
			if c.None || err != nil {
				bad("resolved to nothing: %v", err)
				continue
			}
			if len(j.out) == 1 {
				if !reflect.DeepEqual(got, list[0]) {
					bad("resolved to %.600s, the proxy sent %.600s", c.Result, j.reply)
				}
				r.Count("calls resolved to a result", 1)
				continue
			}
			want := map[string]interface{}{}
			for k, nm := range resultNames(d.s, j.sig) {
				want[nm] = list[k]
			}
			if !reflect.DeepEqual(got, interface{}(want)) {
				bad("resolved to %.600s, the proxy sent %.600s for %v", c.Result, j.reply, strings.Join(resultNames(d.s, j.sig), ", "))
			}
			r.Count("calls resolved to named results", 1)
		}
	}
	r.AtLeast("executions observed", 3000)
	r.AtLeast("calls resolved to nothing", 50)
	r.AtLeast("calls resolved to a result", 500)
	r.AtLeast("calls resolved to named results", 500)
	r.AtLeast("failures of the transport passed on", 100)
}
