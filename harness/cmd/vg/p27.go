package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verifharness/rt"
)

func init() { checks["P27"] = p27 }

// model is a module with services and types, and what is configured for it.
type model struct {
	mod      string
	config   string // the configuration file, relative to the workspace
	path     string // of the module, as configured
	cwd      string // where the generator runs, relative to the workspace
	pkgs     []*mpkg
	targets  []*mtarget
	mappings map[string]*mmapping // by package path
	kinds    map[string]string    // of types by full name: interface, enum, type
	deps     map[string][]string  // types of types
}

type mpkg struct {
	dir, path, name string
	services        []*mservice
	types           []string // full names
}

type mservice struct {
	name     string
	exported []string
	types    []string
}

type mtarget struct {
	name      string
	pkg       *mpkg
	services  map[string]*mservice // by endpoint
	out       string               // as configured
	outFile   string               // relative to the workspace
	tsrpc     []string
	gorpc     []string
	skip      bool
	order     []string
	tsModules []string
}

type mmapping struct {
	out, outFile     string
	structs, scalars []string
}

type modelGen struct {
	*rand.Rand
}

func (g modelGen) of(xs ...string) string { return xs[g.Intn(len(xs))] }

func (g modelGen) chance(n int) bool { return g.Intn(n) == 0 }

// plain makes every path of the configuration a relative one, and puts the
// configuration file at the root of the module, where the generator is run.
func (m *model) plain() {
	m.config, m.path, m.cwd = "gotsrpc.yml", "./", ""
	for _, mm := range m.mappings {
		mm.out = mm.outFile
	}
	for _, t := range m.targets {
		t.out = t.outFile
	}
}

// newModel invents a module and writes its sources.
func newModel(dir, mod string, seed int64) *model {
	g := modelGen{rand.New(rand.NewSource(seed))}
	m := &model{mod: mod, mappings: map[string]*mmapping{}, kinds: map[string]string{}, deps: map[string][]string{}}
	dirs := []string{"svc", "svc/admin", "svcadmin", "vo", "vo/deep/er", "other", "x/vo", "front-end", "svc2"}
	g.Shuffle(len(dirs), func(i, j int) { dirs[i], dirs[j] = dirs[j], dirs[i] })
	for i, d := range dirs[:4+g.Intn(3)] {
		name := strings.ReplaceAll(path.Base(d), "-", "")
		p := &mpkg{dir: d, path: mod + "/" + d, name: name}
		var b strings.Builder
		imports := map[int]bool{}
		// refer names a type of this or an earlier package
		refer := func() (src, full string) {
			k := i
			if i > 0 && g.chance(2) {
				k = g.Intn(i)
			}
			q := p
			if k < i {
				q = m.pkgs[k]
			}
			if len(q.types) == 0 {
				return "string", ""
			}
			full = q.types[g.Intn(len(q.types))]
			src = full[strings.LastIndexByte(full, '.')+1:]
			if q != p {
				imports[k] = true
				src = fmt.Sprintf("i%d.%s", k, src)
			}
			switch g.Intn(5) {
			case 0:
				src = "*" + src
			case 1:
				src = "[]" + src
			case 2:
				src = "map[string]" + src
			}
			return src, full
		}
		for k := 0; k < 3+g.Intn(5); k++ {
			n := fmt.Sprintf("%s%d", g.of("Thing", "Item", "Kind", "Level", "Page"), k)
			full := p.path + "." + n
			switch g.Intn(6) {
			case 0:
				fmt.Fprintf(&b, "type %s string\n\nconst (\n\t%sA %s = \"a\"\n\t%sB %s = \"b\"\n)\n\n", n, n, n, n, n)
				m.kinds[full] = "enum"
			case 1:
				fmt.Fprintf(&b, "type %s int\n\n", n)
				m.kinds[full] = "type"
			default:
				fmt.Fprintf(&b, "type %s struct {\n\tID string `json:\"id\"`\n", n)
				for f := g.Intn(4); f > 0; f-- {
					src, dep := refer()
					if dep == full {
						continue
					}
					fmt.Fprintf(&b, "\tF%d %s `json:\"f%d\"`\n", f, src, f)
					if dep != "" {
						m.deps[full] = append(m.deps[full], dep)
					}
				}
				b.WriteString("}\n\n")
				m.kinds[full] = "interface"
			}
			p.types = append(p.types, full)
		}
		if i >= 2 || g.chance(2) {
			names := []string{"Service", "Admin", "ServiceAdmin", "Svc", "AdminService", "S"}
			g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			names = names[:1+g.Intn(3)]
			if n := strings.ToUpper(names[0]); n != names[0] && g.chance(3) {
				names = append(names, n)
			}
			for _, n := range names {
				s := &mservice{name: n}
				iface := !g.chance(3)
				if iface {
					fmt.Fprintf(&b, "type %s interface {\n", n)
				} else {
					fmt.Fprintf(&b, "type %s struct{}\n\n", n)
				}
				var used []string
				for k := 0; k < 1+g.Intn(4); k++ {
					mn := fmt.Sprintf("%s%d", g.of("Get", "Set", "Do", "List", "URL"), k)
					if g.chance(4) {
						mn = strings.ToLower(mn[:1]) + mn[1:]
						fmt.Fprintf(&b, "%s\n", map[bool]string{true: "\t" + mn + "(x int) string", false: "func (s *" + n + ") " + mn + "(x int) string { return \"\" }\n"}[iface])
						continue
					}
					src, dep := refer()
					src2, dep2 := refer()
					if dep != "" {
						used = append(used, dep)
					}
					if dep2 != "" {
						used = append(used, dep2)
					}
					if iface {
						fmt.Fprintf(&b, "\t%s(a %s) (%s)\n", mn, src, src2)
					} else {
						fmt.Fprintf(&b, "func (s *%s) %s(a %s) (b %s) { return }\n\n", n, mn, src, src2)
					}
					s.exported = append(s.exported, mn)
				}
				if iface {
					b.WriteString("}\n\n")
				}
				s.types = used
				p.services = append(p.services, s)
			}
			b.WriteString("type unrelated struct{}\n\nfunc (u *unrelated) Get0(x int) string { return \"\" }\n\nfunc Free() {}\n")
		}
		var imp strings.Builder
		fmt.Fprintf(&imp, "package %s\n\n", name)
		var ks []int
		for k := range imports {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			fmt.Fprintf(&imp, "import i%d %q\n", k, m.pkgs[k].path)
		}
		put(dir, path.Join(d, "a.go"), imp.String()+"\n"+b.String())
		m.pkgs = append(m.pkgs, p)
	}
	m.configure(g, dir)
	return m
}

// place spells the path of a file of the workspace in one of the ways there are.
// The home directory is the workspace.
func (m *model) place(g modelGen, file, dir string) string {
	up := ""
	if m.cwd != "" {
		up = strings.Repeat("../", 1+strings.Count(m.cwd, "/"))
	}
	switch g.Intn(8) {
	case 0:
		return filepath.Join(dir, file)
	case 1:
		return "~/" + file
	case 2:
		return up + "../" + filepath.Base(dir) + "/" + file
	}
	return g.of("./", "") + up + file
}

// homeAt is the environment that makes a directory the home directory, for
// everything but what the go command keeps in it.
func homeAt(r *rt.Report, dir string) []string {
	return []string{"HOME=" + dir, "XDG_CONFIG_HOME=" + filepath.Join(r.Scratch, "config")}
}

// configure invents targets and mappings.
func (m *model) configure(g modelGen, dir string) {
	where := g.of("", "", "", "conf/", "conf/gen.d/")
	m.config = where + "gotsrpc.yml"
	m.path = g.of("./", "")
	if where != "" {
		m.path = g.of("", "./") + strings.Repeat("../", strings.Count(where, "/"))
	}
	if m.path == "" || g.chance(6) {
		m.path = dir
	}
	m.cwd = g.of("", "", "", "web", "web/src")
	for i, p := range m.pkgs {
		out := fmt.Sprintf("%s/%s%d.ts", g.of("ts", "ts/vo", "client/src", "ts/a/b/c", "ts/lib.ts"), g.of("vo", "types", "x.y"), i)
		mm := &mmapping{out: m.place(g, out, dir), outFile: out}
		for _, t := range p.types {
			if g.chance(5) {
				if m.kinds[t] == "interface" {
					mm.structs = append(mm.structs, t)
				} else {
					mm.scalars = append(mm.scalars, t)
				}
			}
		}
		m.mappings[p.path] = mm
	}
	hasGo := map[string]bool{}
	n := 0
	for i := 1 + g.Intn(4); i > 0; {
		p := m.pkgs[g.Intn(len(m.pkgs))]
		n++
		if n > 100 {
			break
		}
		if len(p.services) == 0 {
			continue
		}
		i--
		t := &mtarget{name: fmt.Sprintf("%s%d", g.of("z", "a", "m"), n), pkg: p, services: map[string]*mservice{}}
		for k, s := range p.services {
			if len(t.services) == 0 && k == len(p.services)-1 || !g.chance(3) {
				t.services[fmt.Sprintf("/%s/%s/%d%d", g.of("service", "API", "x-y"), strings.ToLower(s.name), n, k)] = s
				t.order = append(t.order, s.name)
			}
		}
		if !g.chance(5) {
			t.outFile = fmt.Sprintf("%s/client%d.ts", g.of("ts", "ts/clients", "client/src", "ts/c.ts.d"), n)
			t.out = m.place(g, t.outFile, dir)
		}
		for _, s := range t.order {
			if !g.chance(3) {
				t.tsrpc = append(t.tsrpc, s)
			}
			if g.chance(2) {
				t.gorpc = append(t.gorpc, s)
			}
		}
		t.skip = g.chance(3)
		if hasGo[p.path] { // only one target can write the Go code of a package
			t.tsrpc, t.gorpc = nil, nil
		}
		if t.tsrpc == nil && g.chance(2) { // which is the same
			t.tsrpc = []string{}
		}
		if t.gorpc == nil && g.chance(2) {
			t.gorpc = []string{}
		}
		hasGo[p.path] = hasGo[p.path] || len(t.tsrpc)+len(t.gorpc) > 0
		m.targets = append(m.targets, t)
	}
}

// yaml is the configuration of some of the targets.
func (m *model) yaml(only *mtarget) string {
	var b strings.Builder
	fmt.Fprintf(&b, "module:\n  name: %s\n  path: %s\n\ntargets:\n", m.mod, m.path)
	for _, t := range m.targets {
		if only != nil && t != only {
			continue
		}
		fmt.Fprintf(&b, "  %s:\n    services:\n", t.name)
		var es []string
		for e := range t.services {
			es = append(es, e)
		}
		sort.Strings(es)
		for _, e := range es {
			fmt.Fprintf(&b, "      %s: %s\n", e, t.services[e].name)
		}
		fmt.Fprintf(&b, "    package: %s\n", t.pkg.path)
		if t.out != "" {
			fmt.Fprintf(&b, "    out: %s\n", t.out)
		}
		if t.tsrpc != nil {
			fmt.Fprintf(&b, "    tsrpc: [%s]\n", strings.Join(t.tsrpc, ", "))
		}
		if t.gorpc != nil {
			fmt.Fprintf(&b, "    gorpc: [%s]\n", strings.Join(t.gorpc, ", "))
		}
		if t.skip {
			b.WriteString("    skipTSRPCClient: true\n")
		}
	}
	b.WriteString("\nmappings:\n")
	for _, p := range m.pkgs {
		mm := m.mappings[p.path]
		if mm == nil {
			continue
		}
		fmt.Fprintf(&b, "  %s:\n    out: %s\n", p.path, mm.out)
		if mm.structs != nil {
			fmt.Fprintf(&b, "    structs: [%s]\n", strings.Join(mm.structs, ", "))
		}
		if mm.scalars != nil {
			fmt.Fprintf(&b, "    scalars: [%s]\n", strings.Join(mm.scalars, ", "))
		}
	}
	return b.String()
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// closure adds the types that the types given are made of.
func (m *model) closure(into map[string]bool, full string) {
	if into[full] {
		return
	}
	into[full] = true
	for _, d := range m.deps[full] {
		m.closure(into, d)
	}
}

// needs tells the types which are required by the clients and lists, those that
// may be there, and those that are listed.
func (m *model) needs() (required, allowed, listed map[string]bool) {
	required, allowed, listed = map[string]bool{}, map[string]bool{}, map[string]bool{}
	anyOut := false
	for _, t := range m.targets {
		for _, s := range t.services {
			for _, ty := range s.types {
				m.closure(allowed, ty)
				if t.outFile != "" && (len(t.tsrpc) == 0 || contains(t.tsrpc, s.name)) {
					m.closure(required, ty)
				}
			}
		}
		anyOut = anyOut || t.outFile != ""
	}
	for _, mm := range m.mappings {
		for _, ty := range append(append([]string{}, mm.structs...), mm.scalars...) {
			m.closure(allowed, ty)
			if anyOut {
				m.closure(required, ty)
				listed[ty] = true
			}
		}
	}
	return
}

// goDecls lists the types declared by generated code, interfaces with their
// methods, and the values of the string constants.
func goDecls(src string) (types []string, methods map[string][]string, literals map[string]bool, err error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return nil, nil, nil, err
	}
	methods, literals = map[string][]string{}, map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			literals[strings.Trim(l.Value, "\"`")] = true
		}
		return true
	})
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok {
					continue
				}
				types = append(types, ts.Name.Name)
				if it, ok := ts.Type.(*ast.InterfaceType); ok {
					for _, m := range it.Methods.List {
						for _, n := range m.Names {
							methods[ts.Name.Name] = append(methods[ts.Name.Name], n.Name)
						}
					}
				}
			}
		case *ast.FuncDecl:
			if d.Recv != nil {
				if star, ok := d.Recv.List[0].Type.(*ast.StarExpr); ok {
					if id, ok := star.X.(*ast.Ident); ok {
						methods[id.Name] = append(methods[id.Name], d.Name.Name)
					}
				}
			}
		}
	}
	return
}

var (
	reTSExport  = regexp.MustCompile(`(?m)^export (?:class|interface|type|enum|const) ([\w$]+)`)
	reTSKind    = regexp.MustCompile(`(?m)^export (class|interface|type|enum|const) ([\w$]+)`)
	reTSDefault = regexp.MustCompile(`public static defaultEndpoint = "([^"]*)"`)
	reTSMethod  = regexp.MustCompile(`(?m)^\tasync (\w+)\(`)
	reServed    = regexp.MustCompile(`^(HTTP)?(\w+?)(GoTSRPCProxy|GoTSRPCClient|GoRPCProxy|GoRPCClient)$`)
)

// p27 generates for invented configurations and compares what is there with what was configured.
func p27(r *rt.Report) {
	r.Rule = "each case is one target or mapping of an invented configuration, its Go and TypeScript files compared with what was configured; distinct by (configuration, target or mapping)"
	r.Assume = []string{
		"types of services that are not in a target's tsrpc list may be emitted or not",
		"at most one target writes the Go code of a package",
	}
	n := r.N(60, 1000)
	ws := make([]*wspace, n)
	ms := make([]*model, n)
	ok := make([]bool, n)
	for i := range ws {
		name := fmt.Sprintf("cfg%d", r.Seed*10000+int64(i))
		ws[i] = &wspace{name: name, dir: scratch(r, "cfg", name)}
		put(ws[i].dir, "go.mod", gomod("casemod/"+name))
		put(ws[i].dir, "go.sum", gosum())
		ms[i] = newModel(ws[i].dir, "casemod/"+name, r.Seed*10000+int64(i))
		put(ws[i].dir, ms[i].config, ms[i].yaml(nil))
		put(ws[i].dir, path.Join(ms[i].cwd, ".keep"), "")
	}
	each(ws, func(i int, w *wspace) { ok[i] = p27one(r, w, ms[i]) })
	var jobs []tsJob
	for i, w := range ws {
		if ok[i] {
			jobs = append(jobs, tsJob{w.name, w.dir})
		}
	}
	results := typecheck(r, jobs)
	for _, j := range jobs {
		res, there := results[j.Name]
		if !there {
			r.Broken("%s was not typechecked", j.Name)
		}
		r.Count("TypeScript modules typechecked", res.Files)
		if len(res.Diags) > 0 {
			r.Violate("imports", "%s: %s", j.Name, head(strings.Join(res.Diags, "\n    "), 1000))
		}
	}
	r.AtLeast("targets compared", 80)
	r.AtLeast("Go proxies and clients compared", 150)
	r.AtLeast("TypeScript clients compared", 80)
	r.AtLeast("types listed in mappings found", 100)
	r.AtLeast("types in use found", 300)
	r.AtLeast("targets generated alone", 60)
	r.AtLeast("TypeScript modules typechecked", 250)
}

func p27one(r *rt.Report, w *wspace, m *model) bool {
	bad := func(key, format string, a ...interface{}) {
		r.Violate(key, "%s: %s\n%s", w.name, fmt.Sprintf(format, a...), m.yaml(nil))
	}
	src := tree(w.dir)
	// run runs the generator in a workspace
	generate := func(dir string) result {
		config, err := filepath.Rel(filepath.Join(dir, m.cwd), filepath.Join(dir, m.config))
		if err != nil {
			r.Broken("%v", err)
		}
		return run(filepath.Join(dir, m.cwd), time.Minute, homeAt(r, dir), generator(r), config)
	}
	res := generate(w.dir)
	if res.code != 0 || res.timeout {
		bad("refused", "the generator gave up with %d: %s", res.code, tail(res.out, 800))
		return false
	}
	got := tree(w.dir)
	want := map[string]bool{} // files
	may := map[string]bool{}

	for _, t := range m.targets {
		r.Case(w.name + t.name)
		r.Count("targets compared", 1)
		file := func(name string, suffixes []string, listed []string, expected bool) {
			n := path.Join(t.pkg.dir, name)
			if !expected {
				return
			}
			want[n] = true
			code, there := got[n]
			if !there {
				bad("go files", "%s: there is no %s", t.name, n)
				return
			}
			types, methods, literals, err := goDecls(code)
			if err != nil {
				bad("go files", "%s: %s: %v", t.name, n, err)
				return
			}
			for _, s := range t.pkg.services {
				for _, suffix := range suffixes {
					has := contains(types, s.name+suffix)
					if has != contains(listed, s.name) {
						bad("services", "%s: %s: is there %s? %v", t.name, n, s.name+suffix, has)
					}
					if !has {
						continue
					}
					r.Count("Go proxies and clients compared", 1)
					if strings.HasSuffix(suffix, "Client") {
						for _, e := range s.exported {
							if !contains(methods[s.name+suffix], e) {
								bad("methods", "%s: %s has no %s", t.name, s.name+suffix, e)
							}
						}
						for _, e := range methods[s.name+suffix] {
							if !contains(s.exported, e) && !strings.HasPrefix(suffix, "GoRPC") {
								bad("methods", "%s: %s has %s", t.name, s.name+suffix, e)
							}
						}
					}
				}
			}
			for _, ty := range types {
				if x := reServed.FindStringSubmatch(ty); x != nil && !contains(listed, x[2]) {
					bad("services", "%s: %s has %s, which is not listed", t.name, n, ty)
				}
			}
			if name == "gotsrpc_gen.go" {
				for _, s := range t.services {
					if !contains(listed, s.name) {
						continue
					}
					for _, e := range s.exported {
						if !literals[e] {
							bad("methods", "%s: %s offers no endpoint %s", t.name, s.name, e)
						}
					}
				}
				for e, s := range t.services {
					if contains(listed, s.name) != literals[e] {
						bad("services", "%s: %s: default endpoint %s of %s: %v", t.name, n, e, s.name, literals[e])
					}
				}
			}
		}
		file("gotsrpc_gen.go", []string{"GoTSRPCProxy"}, t.tsrpc, len(t.tsrpc) > 0)
		file("gotsrpcclient_gen.go", []string{"GoTSRPCClient"}, t.tsrpc, len(t.tsrpc) > 0 && !t.skip)
		file("gorpc_gen.go", []string{"GoRPCProxy"}, t.gorpc, len(t.gorpc) > 0)
		file("gorpcclient_gen.go", []string{"GoRPCClient"}, t.gorpc, len(t.gorpc) > 0)

		if t.outFile == "" {
			continue
		}
		want[t.outFile] = true
		code := got[t.outFile]
		classes := map[string]string{}
		parts := regexp.MustCompile(`(?m)^export class `).Split(code, -1)
		for _, c := range parts[1:] {
			classes[regexp.MustCompile(`^\w+`).FindString(c)] = c
		}
		for e, s := range t.services {
			c, there := classes[s.name+"Client"]
			if wanted := len(t.tsrpc) == 0 || contains(t.tsrpc, s.name); there != wanted {
				bad("typescript clients", "%s: is there %sClient in %s? %v", t.name, s.name, t.out, there)
			}
			delete(classes, s.name+"Client")
			if !there {
				continue
			}
			r.Count("TypeScript clients compared", 1)
			if x := reTSDefault.FindStringSubmatch(c); x == nil || x[1] != e {
				bad("typescript clients", "%s: %sClient's endpoint is not %s", t.name, s.name, e)
			}
			if ms := reTSMethod.FindAllString(c, -1); len(ms) != len(s.exported) {
				bad("methods", "%s: %sClient has the methods %q", t.name, s.name, ms)
			}
		}
		for c := range classes {
			bad("typescript clients", "%s: %s has %s", t.name, t.out, c)
		}
	}

	required, allowed, listed := m.needs()
	for _, p := range m.pkgs {
		mm := m.mappings[p.path]
		r.Case(w.name + p.path)
		code, there := got[mm.outFile]
		exports := map[string]string{}
		for _, x := range reTSKind.FindAllStringSubmatch(code, -1) {
			exports[x[2]] = x[1]
		}
		for _, full := range p.types {
			n := full[strings.LastIndexByte(full, '.')+1:]
			if required[full] {
				want[mm.outFile] = true
				switch {
				case exports[n] == "" && listed[full]:
					bad("listed", "%s is listed, but not in %s", full, mm.out)
				case exports[n] == "":
					bad("types", "%s is not in %s", full, mm.out)
				case exports[n] != m.kinds[full]:
					bad("types", "%s is emitted as %s", full, exports[n])
				case listed[full]:
					r.Count("types listed in mappings found", 1)
				default:
					r.Count("types in use found", 1)
				}
			}
			if allowed[full] {
				may[mm.outFile] = true
			} else if exports[n] != "" {
				bad("unused", "%s is neither in use nor listed, but in %s", full, mm.out)
			}
			delete(exports, n)
		}
		for n := range exports {
			bad("unused", "%s has %s", mm.out, n)
		}
		_ = there
	}
	for n := range want {
		if _, there := got[n]; !there {
			bad("files", "there is no %s", n)
		}
	}
	for n := range got {
		if _, old := src[n]; !old && !want[n] && !may[n] {
			bad("files", "there is a %s", n)
		}
	}

	if _, out, ok := compile(w.dir); !ok {
		bad("compile", "%s", head(out, 800))
	}

	// every target alone
	if len(m.targets) > 1 {
		for i, t := range m.targets {
			dir := scratch(r, "cfg1", fmt.Sprint(w.name, "_", i))
			for n, b := range src {
				put(dir, n, b)
			}
			y := strings.ReplaceAll(strings.ReplaceAll(m.yaml(t), w.dir, dir), "../"+filepath.Base(w.dir)+"/", "../"+filepath.Base(dir)+"/")
			put(dir, m.config, y)
			res := generate(dir)
			if res.code != 0 {
				bad("alone", "%s alone: status %d: %s", t.name, res.code, tail(res.out, 500))
				continue
			}
			for n, b := range tree(dir) {
				if _, old := src[n]; old {
					continue
				}
				if b := strings.ReplaceAll(strings.ReplaceAll(b, dir, w.dir), "../"+filepath.Base(dir)+"/", "../"+filepath.Base(w.dir)+"/"); strings.HasSuffix(n, ".go") || n == t.outFile {
					if b != got[n] {
						bad("alone", "%s alone: %s differs: %s", t.name, n, firstDiff(b, got[n]))
					}
				} else {
					for _, e := range reTSExport.FindAllString(b, -1) {
						if !strings.Contains(got[n], e) {
							bad("alone", "%s alone: %s has %q", t.name, n, e)
						}
					}
				}
			}
			r.Count("targets generated alone", 1)
			_ = os.RemoveAll(dir)
		}
	}
	return true
}
