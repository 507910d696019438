// mkreg writes, for a fixture package, a recording implementation of every
// service interface and a registry describing how to build its proxies and
// clients. Everything it emits goes through the code the generator under test
// wrote; the implementations only call the monitor's hook. It also writes
// compile time assertions that the generated code exposes the whole service.
//
//	mkreg -pkg verifharness/fx -dir ./fx -out ./fxreg/reg_gen.go -name fxreg -http A,B -tsclient A -gorpc B -consts dir=path,dir=path
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

type meth struct {
	name            string
	params, rets    []string
	pnames, rnames  []string
	plain, plainRet []string // without the http pair
}

type svc struct {
	name  string
	meths []meth
}

var replacer = strings.NewReplacer(".", "_", "/", "_", "-", "_")

func alias(ip string) string {
	if !strings.Contains(ip, "/") {
		return ip
	}
	if ip == "net/http" {
		return "http"
	}
	return replacer.Replace(ip)
}

func parse(dir string) map[string]*ast.File {
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool {
		return !strings.HasSuffix(fi.Name(), "_gen.go") && !strings.HasSuffix(fi.Name(), "_test.go")
	}, 0)
	if err != nil {
		panic(err)
	}
	fs := map[string]*ast.File{}
	for _, p := range pkgs {
		for n, f := range p.Files {
			fs[n] = f
		}
	}
	return fs
}

func sortedFiles(fs map[string]*ast.File) (r []string) {
	for n := range fs {
		r = append(r, n)
	}
	sort.Strings(r)
	return
}

func main() {
	pkg := flag.String("pkg", "", "import path of the fixture")
	dir := flag.String("dir", "", "directory of the fixture")
	out := flag.String("out", "", "file to write")
	name := flag.String("name", "", "package name to write")
	httpS := flag.String("http", "", "interface services with an HTTP proxy")
	cliS := flag.String("tsclient", "", "services with a Go HTTP client")
	rpcS := flag.String("gorpc", "", "services with GoRPC proxy and client")
	constS := flag.String("consts", "", "dir=importpath,... to collect typed constants from")
	flag.Parse()

	set := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, x := range strings.Split(s, ",") {
			if x != "" {
				m[x] = true
			}
		}
		return m
	}
	httpSet, cliSet, rpcSet := set(*httpS), set(*cliS), set(*rpcS)

	files := parse(*dir)
	base := alias(*pkg)
	local := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.TYPE {
				for _, s := range g.Specs {
					local[s.(*ast.TypeSpec).Name.Name] = true
				}
			}
		}
	}
	imports := map[string]bool{"net/http": true, "reflect": true, "context": true, *pkg: true, "verifharness/rt": true, "github.com/foomo/gotsrpc/v2": true}
	var svcs []svc
	for _, fn := range sortedFiles(files) {
		f := files[fn]
		imp := map[string]string{}
		for _, im := range f.Imports {
			ip := strings.Trim(im.Path.Value, `"`)
			n := path.Base(ip)
			if im.Name != nil {
				n = im.Name.Name
			}
			imp[n] = ip
			imports[ip] = true
		}
		qualify := func(e ast.Expr) string {
			var rw func(e ast.Expr) ast.Expr
			rw = func(e ast.Expr) ast.Expr {
				switch t := e.(type) {
				case *ast.Ident:
					if local[t.Name] {
						return &ast.SelectorExpr{X: ast.NewIdent(base), Sel: ast.NewIdent(t.Name)}
					}
					return t
				case *ast.SelectorExpr:
					return &ast.SelectorExpr{X: ast.NewIdent(alias(imp[t.X.(*ast.Ident).Name])), Sel: ast.NewIdent(t.Sel.Name)}
				case *ast.StarExpr:
					return &ast.StarExpr{X: rw(t.X)}
				case *ast.ArrayType:
					return &ast.ArrayType{Len: t.Len, Elt: rw(t.Elt)}
				case *ast.MapType:
					return &ast.MapType{Key: rw(t.Key), Value: rw(t.Value)}
				}
				return e
			}
			var b bytes.Buffer
			if err := printer.Fprint(&b, token.NewFileSet(), rw(e)); err != nil {
				panic(err)
			}
			return b.String()
		}
		expand := func(fl *ast.FieldList) (ts, ns []string) {
			if fl == nil {
				return nil, nil
			}
			for _, f := range fl.List {
				t := qualify(f.Type)
				if len(f.Names) == 0 {
					ts, ns = append(ts, t), append(ns, "")
				}
				for _, n := range f.Names {
					ts, ns = append(ts, t), append(ns, n.Name)
				}
			}
			return
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				continue
			}
			for _, s := range g.Specs {
				ts := s.(*ast.TypeSpec)
				it, ok := ts.Type.(*ast.InterfaceType)
				if !ok || !(httpSet[ts.Name.Name] || rpcSet[ts.Name.Name]) {
					continue
				}
				sv := svc{name: ts.Name.Name}
				for _, m := range it.Methods.List {
					ft, ok := m.Type.(*ast.FuncType)
					if !ok || len(m.Names) == 0 {
						continue
					}
					x := meth{name: m.Names[0].Name}
					ps, pn := expand(ft.Params)
					x.params = ps
					for i, p := range ps {
						if p != "http.ResponseWriter" && p != "*http.Request" {
							x.pnames = append(x.pnames, pn[i])
							x.plain = append(x.plain, p)
						}
					}
					x.rets, x.rnames = expand(ft.Results)
					sv.meths = append(sv.meths, x)
				}
				svcs = append(svcs, sv)
			}
		}
	}
	sort.Slice(svcs, func(i, j int) bool { return svcs[i].name < svcs[j].name })

	var b bytes.Buffer
	pf := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\n", a...) }
	for _, s := range svcs {
		pf("type rec%s struct{ h rt.Hook }", s.name)
		for _, m := range s.meths {
			var ps, as []string
			w, r := "nil", "nil"
			for i, p := range m.params {
				n := fmt.Sprintf("p%d", i)
				ps = append(ps, n+" "+p)
				switch p {
				case "http.ResponseWriter":
					w = n
				case "*http.Request":
					r = n
				default:
					as = append(as, n)
				}
			}
			pf("func (x rec%s) %s(%s) (%s) {", s.name, m.name, strings.Join(ps, ", "), strings.Join(m.rets, ", "))
			if len(m.rets) > 0 {
				pf("rs := x.h(%q, %q, %s, %s, []interface{}{%s})", s.name, m.name, w, r, strings.Join(as, ", "))
				var rs []string
				for i, t := range m.rets {
					pf("var r%d %s", i, t)
					pf("rt.Put(&r%d, rs, %d)", i, i)
					rs = append(rs, fmt.Sprintf("r%d", i))
				}
				pf("return %s", strings.Join(rs, ", "))
			} else {
				pf("x.h(%q, %q, %s, %s, []interface{}{%s})", s.name, m.name, w, r, strings.Join(as, ", "))
			}
			pf("}")
		}
		// the generated code exposes the whole service
		iface := func(name, first, last string) {
			pf("type %s interface {", name)
			for _, m := range s.meths {
				ps := append([]string{}, m.plain...)
				if first != "" {
					ps = append([]string{first}, ps...)
				}
				pf("%s(%s) (%s)", m.name, strings.Join(ps, ", "), strings.Join(append(append([]string{}, m.rets...), last), ", "))
			}
			pf("}")
		}
		if httpSet[s.name] {
			pf("var _ http.Handler = (*%s.%sGoTSRPCProxy)(nil)", base, s.name)
		}
		if cliSet[s.name] {
			iface("api"+s.name, "context.Context", "error")
			pf("var _ api%s = (*%s.HTTP%sGoTSRPCClient)(nil)", s.name, base, s.name)
			pf("var _ = func(c %s.%sGoTSRPCClient) api%s { return c }", base, s.name, s.name)
			pf("var _ %s.%sGoTSRPCClient = (*%s.HTTP%sGoTSRPCClient)(nil)", base, s.name, base, s.name)
		}
		if rpcSet[s.name] {
			iface("rpcapi"+s.name, "", "error")
			pf("var _ rpcapi%s = (*%s.%sGoRPCClient)(nil)", s.name, base, s.name)
		}
	}
	strs := func(xs []string) string {
		var q []string
		for _, x := range xs {
			q = append(q, fmt.Sprintf("%q", x))
		}
		return "{" + strings.Join(q, ", ") + "}"
	}
	pf("// Services lists the fixture's services.")
	pf("var Services = []rt.Service{")
	for _, s := range svcs {
		pf("{ Name: %q, Pkg: %q,", s.name, *pkg)
		pf("Impl: func(h rt.Hook) interface{} { return rec%s{h} },", s.name)
		pf("Iface: reflect.TypeOf((*%s.%s)(nil)).Elem(),", base, s.name)
		if httpSet[s.name] {
			pf("Default: func(h rt.Hook) http.Handler { return %s.NewDefault%sGoTSRPCProxy(rec%s{h}) },", base, s.name, s.name)
			pf("At: func(h rt.Hook, ep string) http.Handler { return %s.New%sGoTSRPCProxy(rec%s{h}, ep) },", base, s.name, s.name)
			pf("Endpoint: func() string { return %s.NewDefault%sGoTSRPCProxy(rec%s{}).EndPoint },", base, s.name, s.name)
		}
		if cliSet[s.name] {
			pf("Client: func(url, ep string, c *http.Client) (interface{}, gotsrpc.Client) { x := %s.New%sGoTSRPCClientWithClient(url, ep, c); var i %s.%sGoTSRPCClient = x; return i, x.Client },", base, s.name, base, s.name)
			pf("DefaultClient: func(url string) (interface{}, gotsrpc.Client) { x := %s.NewDefault%sGoTSRPCClient(url); return x, x.Client },", base, s.name)
			pf("PlainClient: func(url, ep string) (interface{}, gotsrpc.Client) { x := %s.New%sGoTSRPCClient(url, ep); return x, x.Client },", base, s.name)
		}
		if rpcSet[s.name] {
			pf("RPCServer: func(addr string, h rt.Hook, t *tls.Config) rt.RPCServer { return %s.New%sGoRPCProxy(addr, rec%s{h}, t) },", base, s.name, s.name)
			pf("RPCClient: func(addr string, t *tls.Config) rt.RPCClient { return %s.New%sGoRPCClient(addr, t) },", base, s.name)
		}
		pf("Methods: []string{")
		for _, m := range s.meths {
			pf("%q,", m.name)
		}
		pf("},")
		pf("ArgNames: map[string][]string{")
		for _, m := range s.meths {
			pf("%q: %s,", m.name, strs(m.pnames))
		}
		pf("},")
		pf("RetNames: map[string][]string{")
		for _, m := range s.meths {
			pf("%q: %s,", m.name, strs(m.rnames))
		}
		pf("} },")
	}
	pf("}")

	pf("// Consts lists the typed constants of the fixture's packages.")
	pf("var Consts = map[reflect.Type][]interface{}{")
	for _, kv := range strings.Split(*constS, ",") {
		d, ip, ok := strings.Cut(kv, "=")
		if !ok {
			continue
		}
		by := map[string][]string{}
		fs := parse(d)
		for _, fn := range sortedFiles(fs) {
			for _, dc := range fs[fn].Decls {
				g, ok := dc.(*ast.GenDecl)
				if !ok || g.Tok != token.CONST {
					continue
				}
				for _, sp := range g.Specs {
					v := sp.(*ast.ValueSpec)
					if id, ok := v.Type.(*ast.Ident); ok && ast.IsExported(id.Name) {
						for _, n := range v.Names {
							if n.IsExported() {
								by[id.Name] = append(by[id.Name], alias(ip)+"."+n.Name)
							}
						}
					}
				}
			}
		}
		var ts []string
		for t := range by {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		for _, t := range ts {
			imports[ip] = true
			pf("reflect.TypeOf(%s): {%s},", by[t][0], strings.Join(by[t], ", "))
		}
	}
	pf("}")

	src := b.String()
	imports["crypto/tls"] = true
	var hd bytes.Buffer
	fmt.Fprintf(&hd, "// Code generated by mkreg. DO NOT EDIT.\npackage %s\n\nimport (\n", *name)
	var ips []string
	for ip := range imports {
		ips = append(ips, ip)
	}
	sort.Strings(ips)
	for _, ip := range ips {
		n := alias(ip)
		switch ip {
		case "verifharness/rt":
			n = "rt"
		case "github.com/foomo/gotsrpc/v2":
			n = "gotsrpc"
		case "crypto/tls":
			n = "tls"
		}
		if strings.Contains(src, n+".") {
			fmt.Fprintf(&hd, "%s %q\n", n, ip)
		}
	}
	fmt.Fprintf(&hd, ")\n\n")
	res, err := format.Source(append(hd.Bytes(), b.Bytes()...))
	if err != nil {
		_ = os.MkdirAll(filepath.Dir(*out), 0o755)
		_ = os.WriteFile(*out, append(hd.Bytes(), b.Bytes()...), 0o644)
		panic(err)
	}
	if err := os.MkdirAll(filepath.Dir(*out), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(*out, res, 0o644); err != nil {
		panic(err)
	}
}
