package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"io"
	"os"
	"strings"
	"time"

	"verifharness/rt"
)

func init() { checks["P20"] = p20 }

// p20 generates code for hostile and for random services, has the Go compiler
// judge it, and compares the API of what was compiled with the services'.
func p20(r *rt.Report) {
	r.Rule = "each case is one service (a package written for an awkward construct, or a random one over five packages) whose generated code was compiled and whose compiled API was compared, method by method; distinct by package and method"
	r.Assume = []string{"a service is accepted when the generator exits 0"}
	var ws []*wspace
	for _, f := range caseFiles() {
		ws = append(ws, caseSpace(r, f))
	}
	for i := 0; i < r.N(12, 150); i++ {
		ws = append(ws, randomSpace(r, r.Seed*10000+int64(i)))
	}
	each(ws, func(_ int, w *wspace) { p20space(r, w) })
	endpoints(r)
	r.AtLeast("endpoints compared", 8)
	r.AtLeast("packages compiled", 50)
	r.AtLeast("generated methods compared", 500)
}

// key of a violation: the case's name, or the kind for random ones.
func (w *wspace) key(what string) string {
	if strings.HasPrefix(w.name, "rnd") {
		return "random: " + what
	}
	return "case:" + w.name
}

func p20space(r *rt.Report, w *wspace) {
	res := w.generate(r)
	r.Case(w.name)
	if res.timeout || res.crashed() {
		r.Violate(w.key("generator"), "%s: the generator did not come to an end (%v) or crashed:\n%s", w.name, res.wall, tail(res.out, 1500))
		return
	}
	if res.code != 0 {
		if w.expect == "ok" {
			r.Violate(w.key("generator"), "%s: the generator gave up with %d:\n%s", w.name, res.code, tail(res.out, 1500))
		}
		r.Count("services refused", 1)
		return
	}
	exports, out, ok := compile(w.dir)
	if !ok {
		r.Violate(w.key("compile"), "%s: the generator was content, but the Go compiler is not:\n%s", w.name, head(out, 1500))
		return
	}
	r.Count("packages compiled", 1)
	for _, s := range w.services {
		p20api(r, w, s, exports)
	}
}

// compile builds a module and returns where its packages' export data is.
func compile(dir string) (exports map[string]string, out string, ok bool) {
	res := run(dir, 5*time.Minute, nil, "go", "list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}", "./...")
	if res.code != 0 {
		return nil, res.out, false
	}
	exports = map[string]string{}
	for _, l := range strings.Split(res.stdout, "\n") {
		if i := strings.IndexByte(l, '='); i > 0 {
			exports[l[:i]] = l[i+1:]
		}
	}
	return exports, "", true
}

func load(exports map[string]string, path string) (*types.Package, error) {
	imp := importer.ForCompiler(token.NewFileSet(), "gc", func(p string) (io.ReadCloser, error) {
		f := exports[p]
		if f == "" {
			return nil, fmt.Errorf("no export data of %s", p)
		}
		return os.Open(f)
	})
	return imp.Import(path)
}

// methods are the exported methods of a service: of the interface, or of the pointer to the type.
func methods(p *types.Package, name string) (ms []*types.Func, ok bool) {
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil, false
	}
	t := o.Type()
	if !types.IsInterface(t) {
		t = types.NewPointer(t)
	}
	set := types.NewMethodSet(t)
	for i := 0; i < set.Len(); i++ {
		if f := set.At(i).Obj().(*types.Func); f.Exported() {
			ms = append(ms, f)
		}
	}
	return ms, true
}

func tupleTypes(t *types.Tuple) (ts []types.Type) {
	for i := 0; i < t.Len(); i++ {
		ts = append(ts, t.At(i).Type())
	}
	return
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

// p20api compares the generated types and functions with the service.
func p20api(r *rt.Report, w *wspace, s svcSpec, exports map[string]string) {
	p, err := load(exports, s.pkg)
	if err != nil {
		r.Broken("%s: %v", w.name, err)
		return
	}
	bad := func(what, f string, a ...interface{}) {
		r.Violate(w.key(what), "%s.%s: %s", s.pkg, s.name, fmt.Sprintf(f, a...))
	}
	ms, ok := methods(p, s.name)
	if !ok {
		r.Broken("%s: no service %s", w.name, s.name)
		return
	}
	service := p.Scope().Lookup(s.name).Type()
	if !types.IsInterface(service) {
		service = types.NewPointer(service)
	}
	str := types.Typ[types.String]
	errType := types.Universe.Lookup("error").Type()
	// constructors: name, parameters, pointer to which type
	fn := func(name string, want []types.Type, result string) {
		o, ok := p.Scope().Lookup(name).(*types.Func)
		if !ok {
			bad("api", "there is no function %s", name)
			return
		}
		sig := o.Type().(*types.Signature)
		got := tupleTypes(sig.Params())
		same := len(got) == len(want) && !sig.Variadic()
		for i := 0; same && i < len(got); i++ {
			same = want[i] == nil || types.Identical(got[i], want[i])
		}
		if same && result != "" {
			pt, isPtr := sig.Results().At(0).Type().(*types.Pointer)
			same = sig.Results().Len() == 1 && isPtr && isNamed(pt.Elem(), s.pkg, result)
		}
		if !same {
			bad("api", "%s has the wrong signature %s", name, sig)
		}
	}
	px := s.name + "GoTSRPCProxy"
	cl := "HTTP" + s.name + "GoTSRPCClient"
	iface := s.name + "GoTSRPCClient"
	fn("NewDefault"+px, []types.Type{service}, px)
	fn("New"+px, []types.Type{service, str}, px)
	fn("NewDefault"+iface, []types.Type{str}, cl)
	fn("New"+iface, []types.Type{str, str}, cl)
	fn("New"+iface+"WithClient", []types.Type{str, str, nil}, cl)
	if o := p.Scope().Lookup(px); o != nil {
		serves := false
		set := types.NewMethodSet(types.NewPointer(o.Type()))
		for i := 0; i < set.Len(); i++ {
			serves = serves || set.At(i).Obj().Name() == "ServeHTTP"
		}
		if !serves {
			bad("api", "%s serves no HTTP", px)
		}
	}

	offers := func(name string, ctx bool) {
		got, ok := methods(p, name)
		if !ok {
			bad("api", "there is no %s", name)
			return
		}
		by := map[string]*types.Func{}
		for _, m := range got {
			by[m.Name()] = m
		}
		for _, m := range ms {
			sig := m.Type().(*types.Signature)
			in, out := tupleTypes(sig.Params()), tupleTypes(sig.Results())
			if len(in) >= 2 && isNamed(in[0], "net/http", "ResponseWriter") {
				in = in[2:]
			}
			g := by[m.Name()]
			if g == nil {
				bad("method", "%s does not offer %s", name, m.Name())
				continue
			}
			gs := g.Type().(*types.Signature)
			gin, gout := tupleTypes(gs.Params()), tupleTypes(gs.Results())
			same := true
			if ctx {
				same = len(gin) > 0 && isNamed(gin[0], "context", "Context")
				if same {
					gin = gin[1:]
				}
			}
			same = same && len(gin) == len(in) && len(gout) == len(out)+1 && types.Identical(gout[len(gout)-1], errType)
			for i := 0; same && i < len(in); i++ {
				same = types.Identical(in[i], gin[i])
			}
			for i := 0; same && i < len(out); i++ {
				same = types.Identical(out[i], gout[i])
			}
			if !same {
				bad("method", "%s offers %s as %s, but it is %s", name, m.Name(), gs, sig)
			}
			r.Count("generated methods compared", 1)
			r.Case(w.name + "." + name + "." + m.Name())
		}
	}
	offers(iface, true)
	offers(cl, true)
	if strings.HasPrefix(w.name, "rnd") && s.name != "RndRPC" {
		return
	}
	fn("New"+s.name+"GoRPCProxy", []types.Type{str, service, nil}, s.name+"GoRPCProxy")
	fn("New"+s.name+"GoRPCClient", []types.Type{str, nil}, s.name+"GoRPCClient")
	offers(s.name+"GoRPCClient", false)
}
