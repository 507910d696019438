package main

import (
	"fmt"
	"go/build"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"gopkg.in/yaml.v2"

	"verifharness/rt"
)

func init() { checks["P26"] = p26 }

// A broken workspace is an invented one with one defect in it.
type broken struct {
	dir   string
	files map[string]string
	yaml  string // the configuration
	args  []string
	env   []string
	names []string
	note  string
}

// A defect breaks a workspace and tells what a message about it has to name,
// one of these strings. It returns false if the workspace has no place for it.
type defect struct {
	name string
	do   func(g modelGen, m *model, b *broken) bool
}

// sortedKeys of a set or so.
func sortedKeys[T any](m map[string]T) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// pick one of the members of a set.
func pick(g modelGen, set map[string]bool) string {
	ks := sortedKeys(set)
	if len(ks) == 0 {
		return ""
	}
	return ks[g.Intn(len(ks))]
}

func pkgOfType(full string) string { return full[:strings.LastIndexByte(full, '.')] }

func nameOfType(full string) string { return full[strings.LastIndexByte(full, '.')+1:] }

// source returns the name of the source of a package.
func (m *model) source(pkg string) string {
	return strings.TrimPrefix(pkg, m.mod+"/") + "/a.go"
}

// read tells the packages that have to be read: those of targets and of types required.
func (m *model) read() map[string]bool {
	pkgs := map[string]bool{}
	required, _, _ := m.needs()
	for t := range required {
		pkgs[pkgOfType(t)] = true
	}
	for _, t := range m.targets {
		pkgs[t.pkg.path] = true
	}
	return pkgs
}

// served picks a service that is generated for.
func (m *model) served(g modelGen, inGo bool) (*mtarget, *mservice) {
	for i := 0; i < 20; i++ {
		t := m.targets[g.Intn(len(m.targets))]
		for _, e := range sortedKeys(t.services) {
			s := t.services[e]
			if !inGo && t.outFile != "" && len(t.tsrpc) == 0 || contains(t.tsrpc, s.name) || contains(t.gorpc, s.name) {
				if g.chance(2) {
					return t, s
				}
			}
		}
	}
	return nil, nil
}

// requiredStruct picks a struct that is emitted.
func (m *model) requiredStruct(g modelGen) string {
	required, _, _ := m.needs()
	structs := map[string]bool{}
	for t := range required {
		if m.kinds[t] == "interface" {
			structs[t] = true
		}
	}
	return pick(g, structs)
}

// addField adds a field to a struct in the sources.
func (b *broken) addField(m *model, full, field string) {
	n := m.source(pkgOfType(full))
	head := "type " + nameOfType(full) + " struct {\n"
	if !strings.Contains(b.files[n], head) {
		panic(full)
	}
	b.files[n] = strings.Replace(b.files[n], head, head+"\t"+field+"\n", 1)
}

// addMethod adds a method to a service in the sources.
func (b *broken) addMethod(t *mtarget, s *mservice, name, sig string) {
	n := t.pkg.dir + "/a.go"
	head := "type " + s.name + " interface {\n"
	if strings.Contains(b.files[n], head) {
		b.files[n] = strings.Replace(b.files[n], head, head+"\t"+name+sig+"\n", 1)
	} else {
		b.files[n] += "\nfunc (s *" + s.name + ") " + name + sig + " { panic(1) }\n"
	}
}

func (b *broken) addImport(n, imp string) {
	b.files[n] = strings.Replace(b.files[n], "\n\n", "\n\nimport "+imp+"\n", 1)
}

// typeForms are forms of arguments and results that cannot be handled.
var typeForms = []string{
	"struct{ A int }", "**string", "func()", "chan int", "[]struct{ A int }", "map[string]struct{ A int }",
	"map[string]func()", "[]chan string", "**int", "[]**string", "*func()", "[][]struct{ X string }",
}

var defects = []defect{
	{"unmapped package", func(g modelGen, m *model, b *broken) bool {
		required, _, _ := m.needs()
		t := pick(g, required)
		if t == "" {
			return false
		}
		delete(m.mappings, pkgOfType(t))
		if after, _, _ := m.needs(); !after[t] {
			return false
		}
		b.names = []string{pkgOfType(t)}
		return true
	}},
	{"type that is not there", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		n := m.source(pkgOfType(t))
		b.files[n] = strings.Replace(b.files[n], "type "+nameOfType(t)+" ", "type Gone"+nameOfType(t)+" ", 1)
		b.names = []string{t}
		return true
	}},
	{"package that is not there", func(g modelGen, m *model, b *broken) bool {
		p := pick(g, m.read())
		if p == "" {
			return false
		}
		delete(b.files, m.source(p))
		b.names = []string{p}
		return true
	}},
	{"package without sources", func(g modelGen, m *model, b *broken) bool {
		p := pick(g, m.read())
		if p == "" {
			return false
		}
		n := m.source(p)
		switch g.Intn(3) {
		case 0:
			b.files[path.Dir(n)+"/a_test.go"] = b.files[n]
		case 1:
			b.files[path.Dir(n)+"/_a.go"] = b.files[n]
		default:
			b.files[path.Dir(n)+"/a.go.orig"] = b.files[n]
		}
		delete(b.files, n)
		b.names = []string{p}
		return true
	}},
	{"syntax error", func(g modelGen, m *model, b *broken) bool {
		p := pick(g, m.read())
		if p == "" {
			return false
		}
		n := m.source(p)
		src := b.files[n]
		switch g.Intn(6) {
		case 0:
			src += "\nfunc (\n"
		case 1:
			src += "\n}\n"
		case 2:
			src = strings.Replace(src, "package ", "pakage ", 1)
		case 3:
			src += "\ntype X struct {\n"
		case 4:
			src = strings.Replace(src, "string", "[string", 1)
		default:
			src = "not go at all"
		}
		b.files[n] = src
		b.names = []string{n}
		return true
	}},
	{"syntax error in another file", func(g modelGen, m *model, b *broken) bool {
		p := pick(g, m.read())
		if p == "" {
			return false
		}
		n := path.Dir(m.source(p)) + "/zz.go"
		b.files[n] = []string{"", "package", "package x y", "\x00\x01", "func main() {}\n", "package " + path.Base(p) + "\n\nvar x = \"\n"}[g.Intn(6)]
		b.names = []string{n, "zz.go"}
		return true
	}},
	{"service that is not there", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		s := &mservice{name: "NoSuch" + g.of("Service", "Admin")}
		if g.chance(2) {
			t.services["/no/such"] = s
		} else {
			e := sortedKeys(t.services)[0]
			t.services[e] = s
		}
		switch g.Intn(3) {
		case 0:
			t.tsrpc = append(t.tsrpc, s.name)
		case 1:
			t.gorpc = append(t.gorpc, s.name)
		}
		if t.outFile == "" && len(t.tsrpc) == 0 && len(t.gorpc) == 0 {
			return false
		}
		b.names = []string{s.name}
		return true
	}},
	{"service that is defined as another type", func(g modelGen, m *model, b *broken) bool {
		t, s := m.served(g, false)
		if t == nil || s == nil {
			return false
		}
		n := t.pkg.dir + "/a.go"
		head := "type " + s.name + " interface {\n"
		if !strings.Contains(b.files[n], head) {
			return false
		}
		b.files[n] = strings.Replace(b.files[n], head, "type "+s.name+g.of(" ", " = ")+"Other"+s.name+"\n\ntype Other"+s.name+" interface {\n", 1)
		b.names = []string{s.name}
		return true
	}},
	{"service that is in another package only", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		here := map[string]bool{}
		for _, s := range t.pkg.services {
			here[s.name] = true
		}
		for _, p := range m.pkgs {
			for _, s := range p.services {
				if !here[s.name] {
					t.services["/elsewhere"] = s
					b.names = []string{s.name}
					return true
				}
			}
		}
		return false
	}},
	{"unknown type in a mapping", func(g modelGen, m *model, b *broken) bool {
		p := m.pkgs[g.Intn(len(m.pkgs))]
		n := p.path + "." + g.of("Nope", "thing", "Thing99")
		if mm := m.mappings[p.path]; g.chance(2) {
			mm.structs = append(mm.structs, n)
		} else {
			mm.scalars = append(mm.scalars, n)
		}
		b.names = []string{n}
		return true
	}},
	{"type of no package in a mapping", func(g modelGen, m *model, b *broken) bool {
		p := m.pkgs[g.Intn(len(m.pkgs))]
		n := g.of(m.mod+"/nowhere.Thing", "ex.com/none.X", "Thing", "vo.Thing", ".Thing", m.mod+"x/vo.Thing0", "Thing0.")
		if mm := m.mappings[p.path]; g.chance(2) {
			mm.structs = append(mm.structs, n)
		} else {
			mm.scalars = append(mm.scalars, n)
		}
		if i := strings.LastIndexByte(n, '.'); i > 0 {
			b.names = []string{n, n[:i]}
		} else {
			b.names = []string{n}
		}
		return true
	}},
	{"unsupported argument or result", func(g modelGen, m *model, b *broken) bool {
		t, s := m.served(g, true)
		if t == nil {
			return false
		}
		f := typeForms[g.Intn(len(typeForms))]
		sig := g.of("(a "+f+") string", "(a int, b "+f+", c string)", "("+f+")")
		if g.chance(2) && (contains(t.gorpc, s.name) || !t.skip) { // clients declare results as well
			sig = g.of("(a string) "+f, "() (a "+f+", err error)", "() ("+f+", error)")
		}
		if g.chance(4) {
			sig = g.of("(a ...string)", "(a int, b ...int) error", "(...string) string", "(a ...interface{})")
		}
		b.addMethod(t, s, "Unsupported", sig)
		b.note = s.name + ": Unsupported" + sig
		b.names = []string{"Unsupported"}
		return true
	}},
	{"argument with keys TypeScript has no type for", func(g modelGen, m *model, b *broken) bool {
		t, s := m.served(g, false)
		if t == nil || t.outFile == "" || len(t.tsrpc) > 0 && !contains(t.tsrpc, s.name) {
			return false
		}
		f := g.of("map[[2]int]string", "map[*string]int", "map[struct{ A int }]string", "[]map[[1]string]int", "map[string]map[[2]bool]int", "map[chan int]int")
		b.addMethod(t, s, "BadKey", g.of("(a "+f+") string", "(a int, b "+f+")", "() "+f, "(a string) (b int, c "+f+")"))
		b.names = []string{"BadKey"}
		return true
	}},
	{"field with keys TypeScript has no type for", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		b.addField(m, t, "Bad "+g.of("map[[2]int]string", "map[*string]int", "map[struct{ A int }]string", "[]map[[1]string]int", "map[string]map[[2]bool]int", "struct { In map[[2]int]string }"))
		b.names = []string{"Bad", nameOfType(t)}
		return true
	}},
	{"argument of no type", func(g modelGen, m *model, b *broken) bool {
		t, s := m.served(g, false)
		if t == nil {
			return false
		}
		b.addMethod(t, s, "Unresolved", g.of("(a Nope)", "(a int, b *Nope) error", "() []Nope", "() (map[string]Nope, error)", "(a map[Nope]string)"))
		b.names = []string{"Nope"}
		return true
	}},
	{"argument of a package that is not there", func(g modelGen, m *model, b *broken) bool {
		t, s := m.served(g, false)
		if t == nil {
			return false
		}
		p := g.of("ex.com/none", m.mod+"/nothing", "no/such/pkg")
		b.addImport(t.pkg.dir+"/a.go", "nope \""+p+"\"")
		b.addMethod(t, s, "Unresolved", g.of("(a nope.X)", "(a int, b *nope.X) error", "() []nope.X", "() (map[string]nope.X, error)"))
		b.names = []string{p}
		return true
	}},
	{"field of no type", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		b.addField(m, t, g.of("Bad Nope", "Bad *Nope `json:\"x\"`", "Bad []Nope", "Bad map[string]Nope", "Nope", "*Nope", "Bad []map[string]*Nope", "Bad struct { In Nope }"))
		b.names = []string{"Nope"}
		return true
	}},
	{"field of a package that is not there", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		p := g.of("ex.com/none", m.mod+"/nothing", "no/such/pkg")
		b.addImport(m.source(pkgOfType(t)), "nope \""+p+"\"")
		b.addField(m, t, g.of("Bad nope.X", "Bad *nope.X `json:\"x\"`", "Bad []nope.X", "Bad map[string]nope.X", "nope.X", "Bad struct { In nope.X }"))
		b.names = []string{p}
		return true
	}},
	{"field of a package that is not mapped", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		b.files["far/away/a.go"] = "package away\n\ntype X struct { A int }\n\ntype S string\n"
		b.addImport(m.source(pkgOfType(t)), "\""+m.mod+"/far/away\"")
		b.addField(m, t, g.of("Bad away.X", "Bad *away.X `json:\"x\"`", "Bad []away.X", "Bad map[string]away.S", "away.X", "Bad away.S", "Bad struct { In away.X }"))
		b.names = []string{m.mod + "/far/away"}
		return true
	}},
	{"type defined as itself", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		b.files[m.source(pkgOfType(t))] += "\n" + g.of("type N N", "type N M\n\ntype M N", "type N A1\n\ntype A1 A2\n\ntype A2 A1", "type N = N") + "\n"
		b.addField(m, t, g.of("Bad N", "Bad *N `json:\"x\"`", "Bad []N", "Bad map[string]N"))
		b.names = []string{".N", ".M", ".A1", ".A2"}
		return true
	}},
	{"union with other fields", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		b.files[m.source(pkgOfType(t))] += "\ntype UA struct { A int }\n\ntype UB struct { B int }\n\ntype U struct {\n\tA *UA `json:\"a,omitempty\" gotsrpc:\"union\"`\n\tB *UB `json:\"b,omitempty\" gotsrpc:\"union\"`\n\tC string `json:\"c\"`\n}\n"
		b.addField(m, t, "Bad *U `json:\"bad\"`")
		b.names = []string{".U"}
		return true
	}},
	{"union of nothing that can be one", func(g modelGen, m *model, b *broken) bool {
		t := m.requiredStruct(g)
		if t == "" {
			return false
		}
		b.files[m.source(pkgOfType(t))] += "\ntype U struct {\n\tA " + g.of("[]string", "map[string]int", "int", "*string") + " `json:\"a,omitempty\" gotsrpc:\"union\"`\n}\n"
		b.addField(m, t, "Bad *U `json:\"bad\"`")
		b.names = []string{".U"}
		return true
	}},
	{"two mappings to one file", func(g modelGen, m *model, b *broken) bool {
		required, _, _ := m.needs()
		t, u := pick(g, required), pick(g, required)
		if t == "" || pkgOfType(t) == pkgOfType(u) {
			return false
		}
		to := m.mappings[pkgOfType(t)]
		m.mappings[pkgOfType(u)].out = g.of("", "./", "x/../") + to.outFile
		b.names = []string{to.outFile}
		return true
	}},
	{"two targets to one file", func(g modelGen, m *model, b *broken) bool {
		t, u := m.targets[g.Intn(len(m.targets))], m.targets[g.Intn(len(m.targets))]
		if t == u || t.outFile == "" || u.outFile == "" {
			return false
		}
		u.out = g.of("", "./", "x/../") + t.outFile
		b.names = []string{t.outFile}
		return true
	}},
	{"a target and a mapping to one file", func(g modelGen, m *model, b *broken) bool {
		required, _, _ := m.needs()
		t, ty := m.targets[g.Intn(len(m.targets))], pick(g, required)
		if t.outFile == "" || ty == "" {
			return false
		}
		t.out = g.of("", "./", "x/../") + m.mappings[pkgOfType(ty)].outFile
		b.names = []string{m.mappings[pkgOfType(ty)].outFile}
		return true
	}},
	{"two targets to the same Go files", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		if len(t.tsrpc)+len(t.gorpc) == 0 {
			return false
		}
		u := *t
		u.name = g.of("zzz", "aaa")
		u.services = map[string]*mservice{}
		for e, s := range t.services {
			u.services[e+"x"] = s
		}
		u.out, u.outFile = "ts/zzz.ts", "ts/zzz.ts"
		m.targets = append(m.targets, &u)
		b.names = []string{t.pkg.path}
		return true
	}},
	{"a service at two endpoints", func(g modelGen, m *model, b *broken) bool {
		t, s := m.served(g, false)
		if t == nil {
			return false
		}
		t.services["/another/endpoint"] = s
		b.names = []string{s.name}
		return true
	}},
	{"a client's file that cannot be written", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		if t.outFile == "" {
			return false
		}
		b.names = []string{t.outFile, "mkdir " + path.Dir(t.outFile), "mkdir " + path.Dir(path.Dir(t.outFile)) + ":"}
		b.unwritable(g, t.outFile)
		return true
	}},
	{"a mapping's file that cannot be written", func(g modelGen, m *model, b *broken) bool {
		required, _, _ := m.needs()
		t := pick(g, required)
		if t == "" {
			return false
		}
		f := m.mappings[pkgOfType(t)].outFile
		b.names = []string{f, "mkdir " + path.Dir(f), "mkdir " + path.Dir(path.Dir(f)) + ":"}
		b.unwritable(g, f)
		return true
	}},
	{"a Go file that cannot be written", func(g modelGen, m *model, b *broken) bool {
		for _, t := range m.targets {
			f := ""
			switch {
			case len(t.tsrpc) > 0:
				f = "gotsrpc_gen.go"
			case len(t.gorpc) > 0:
				f = g.of("gorpc_gen.go", "gorpcclient_gen.go")
			default:
				continue
			}
			b.files[path.Join(t.pkg.dir, f, "keep.txt")] = "kept"
			b.names = []string{f}
			return true
		}
		return false
	}},
	{"a mapping without a file", func(g modelGen, m *model, b *broken) bool {
		required, _, _ := m.needs()
		t := pick(g, required)
		if t == "" {
			return false
		}
		p := pkgOfType(t)
		b.yaml = m.yaml(nil)
		re := regexp.MustCompile(`(?m)^  ` + regexp.QuoteMeta(p) + `:\n    out: .*\n`)
		b.yaml = re.ReplaceAllString(b.yaml, "  "+p+":\n    "+g.of("module: x", "out: \"\"", "out:")+"\n")
		b.names = []string{p}
		return true
	}},
	{"an empty mapping", func(g modelGen, m *model, b *broken) bool {
		required, _, _ := m.needs()
		t := pick(g, required)
		if t == "" {
			return false
		}
		p := pkgOfType(t)
		b.yaml = m.yaml(nil)
		re := regexp.MustCompile(`(?m)^  ` + regexp.QuoteMeta(p) + `:\n(    .*\n)+`)
		b.yaml = re.ReplaceAllString(b.yaml, "  "+p+":"+g.of("", " ~", " {}", " null")+"\n")
		delete(m.mappings, p)
		if after, _, _ := m.needs(); !after[t] {
			return false
		}
		b.names = []string{p}
		return true
	}},
	{"an empty target", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		re := regexp.MustCompile(`(?m)^  ` + t.name + `:\n(    .*\n)+`)
		b.yaml = re.ReplaceAllString(m.yaml(nil), "  "+t.name+":"+g.of("", " ~", " {}", " null")+"\n")
		b.names = []string{t.name}
		return true
	}},
	{"a target without services", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		re := regexp.MustCompile(`(?m)^(  ` + t.name + `:\n)    services:\n(      .*\n)+`)
		b.yaml = re.ReplaceAllString(m.yaml(nil), "${1}    services:"+g.of("", " {}", " ~")+"\n")
		b.names = []string{t.name}
		return true
	}},
	{"a target without a package", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		y := m.yaml(nil)
		i := strings.Index(y, "\n  "+t.name+":\n")
		rest := regexp.MustCompile(`\n    package: .*\n`).FindStringIndex(y[i:])
		b.yaml = y[:i+rest[0]] + g.of("\n", "\n    package: \"\"\n", "\n    package:\n") + y[i+rest[1]:]
		b.names = []string{t.name}
		return true
	}},
	{"a target of a package that is not there", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		p := *t.pkg
		p.path = g.of(m.mod+"/nowhere", "ex.com/none/svc", m.mod+"x/svc", "svc", "./svc")
		t.pkg = &p
		b.names = []string{p.path}
		return true
	}},
	{"a broken go.mod", func(g modelGen, m *model, b *broken) bool {
		b.files["go.mod"] += g.of("\nrequire (\n", "\nnonsense here\n", "\nreplace => =>\n", "\nmodule again\n")
		b.names = []string{"go.mod"}
		return true
	}},
	{"a go.mod that is a directory", func(g modelGen, m *model, b *broken) bool {
		delete(b.files, "go.mod")
		b.files["go.mod/keep"] = ""
		b.names = []string{"go.mod"}
		return true
	}},
	{"a path of the module that is not there", func(g modelGen, m *model, b *broken) bool {
		b.yaml = strings.Replace(m.yaml(nil), "  path: ./\n", "  path: "+g.of("./nowhere", "../nothing/at/all", "/no/such/dir")+"\n", 1)
		for p := range m.read() {
			b.names = append(b.names, p)
		}
		return true
	}},
	{"broken yaml", func(g modelGen, m *model, b *broken) bool {
		y := m.yaml(nil)
		b.yaml = []string{
			strings.Replace(y, "\n  ", "\n\t", 1),
			strings.Replace(y, "targets:\n", "targets: [\n", 1),
			strings.Replace(y, "    package:", "   package:", 1),
			y + "\n  : : :\n",
			"targets: some\n" + y,
			strings.Replace(y, "    package: ", "    package: [", 1),
			strings.Replace(y, "    services:\n", "    services: none\n", 1),
			"<xml/>",
			"{\"targets\": ",
			strings.Replace(y, "targets:\n", "targets:\n  - a\n", 1),
			regexp.MustCompile(`(?m)^    services:\n(      .*\n)+`).ReplaceAllString(y, "    services: [A, B]\n"),
			regexp.MustCompile(`(?m)^    package: .*\n`).ReplaceAllString(y, "    package: {a: b}\n"),
			regexp.MustCompile(`(?m)^  name: .*\n`).ReplaceAllString(y, "  name: [1, 2]\n"),
			strings.Replace(y, "mappings:\n", "mappings:\n  - out: x\n", 1),
			regexp.MustCompile(`(?m)^    package: .*\n`).ReplaceAllString(y, "$0    tsrpc: {a: b}\n"),
			y + "\x00",
			"\xff\xfe" + y,
		}[g.Intn(17)]
		b.names = []string{"gotsrpc.yml", "yaml"}
		return true
	}},
	{"a configuration that is not there", func(g modelGen, m *model, b *broken) bool {
		b.args = []string{g.of("nope.yml", "no/such/dir/x.yml", "svc", "go.mod/x.yml")}
		b.names = []string{b.args[0]}
		return b.files[b.args[0]+"/a.go"] == ""
	}},
	{"a configuration that is a directory", func(g modelGen, m *model, b *broken) bool {
		b.args = []string{"."}
		b.names = []string{"directory"}
		return true
	}},
	{"no arguments", func(g modelGen, m *model, b *broken) bool {
		b.args = []string{}
		b.names = []string{"Usage", "usage"}
		return true
	}},
	{"too many arguments", func(g modelGen, m *model, b *broken) bool {
		b.args = []string{"gotsrpc.yml", "gotsrpc.yml"}
		b.names = []string{"Usage", "usage"}
		return true
	}},
	{"an unknown flag", func(g modelGen, m *model, b *broken) bool {
		b.args = []string{g.of("-nope", "--what=1", "-debug=maybe"), "gotsrpc.yml"}
		b.names = []string{"Usage", "usage"}
		return true
	}},
	{"no home directory", func(g modelGen, m *model, b *broken) bool {
		t := m.targets[g.Intn(len(m.targets))]
		if t.outFile == "" {
			return false
		}
		t.out = "~/" + t.outFile
		b.env = []string{"HOME="}
		b.names = []string{"home"}
		return true
	}},
}

// unwritable makes it impossible to write a file, to root as well.
func (b *broken) unwritable(g modelGen, file string) {
	if g.chance(2) {
		b.files[path.Join(file, "keep.txt")] = "kept"
		return
	}
	// a file where a directory is needed
	if d := path.Dir(file); strings.Count(d, "/") == 0 {
		b.files[d] = "a file"
	} else {
		b.files[path.Dir(d)] = "a file"
	}
}

// p26 breaks invented workspaces in every way of the table and has the generator say so.
func p26(r *rt.Report) {
	r.Rule = "each case is one run of the generator on an invented workspace with one defect, or on a mutated one; distinct by (defect, workspace)"
	r.Assume = []string{
		"a message names the problem if it has the type, package, file or service in it",
		"a run is hung if it takes more than 30 s",
	}
	type job struct {
		d    defect
		seed int64
	}
	var jobs []job
	for k, d := range defects {
		for i := 0; i < r.N(6, 60); i++ {
			jobs = append(jobs, job{d, r.Seed*1000000 + int64(k)*1000 + int64(i)})
		}
	}
	each(jobs, func(_ int, j job) { p26one(r, j.d, j.seed) })
	r.AtLeast("defects reported", len(defects)*4)
	r.AtLeast("kinds of defects reported", len(defects))
	p26mutants(r)
}

var kindsReported sync.Map

func p26one(r *rt.Report, d defect, seed int64) {
	g := modelGen{rand.New(rand.NewSource(seed))}
	for try := int64(0); try < 40; try++ {
		dir := scratch(r, "p26", fmt.Sprint(seed, "_", try))
		mod := fmt.Sprint("casemod/b", seed)
		m := newModel(dir, mod, seed*100+try)
		m.plain()
		put(dir, "go.mod", gomod(mod))
		put(dir, "go.sum", gosum())
		put(dir, "gotsrpc.yml", m.yaml(nil))
		// it is fine to begin with
		w := &wspace{dir: dir, config: "gotsrpc.yml"}
		src := tree(dir)
		if g.chance(3) { // sometimes there are generated files already
			if res := w.generate(r); res.code != 0 {
				r.Violate("refused", "%s: the generator gave up with %d: %s", d.name, res.code, tail(res.out, 500))
				return
			}
		}
		b := &broken{dir: dir, files: map[string]string{}, args: []string{"gotsrpc.yml"}}
		for n, c := range src {
			b.files[n] = c
		}
		if !d.do(g, m, b) {
			_ = os.RemoveAll(dir)
			continue
		}
		if b.yaml == "" {
			b.yaml = m.yaml(nil)
		}
		b.files["gotsrpc.yml"] = b.yaml
		for n := range src {
			if _, ok := b.files[n]; !ok {
				_ = os.Remove(filepath.Join(dir, n))
			}
		}
		for _, n := range sortedKeys(b.files) {
			if b.files[n] != src[n] || src[n] == "" {
				// in place of what is in the way
				for p := n; p != "."; p = path.Dir(p) {
					st, err := os.Stat(filepath.Join(dir, p))
					if err == nil && (st.IsDir() == (p == n)) {
						_ = os.RemoveAll(filepath.Join(dir, p))
					}
				}
				put(dir, n, b.files[n])
			}
		}
		r.Case(fmt.Sprint(d.name, seed))
		res := run(dir, 30*time.Second, b.env, generator(r), b.args...)
		p26judge(r, d.name, b, res)
		_ = os.RemoveAll(dir)
		return
	}
	r.Count("defects without a place", 1)
}

func p26judge(r *rt.Report, what string, b *broken, res result) {
	bad := func(kind, format string, a ...interface{}) {
		r.Violate(what+" "+kind, "%s: %s: %s\n%s\nexit status %d, output: %s\n%s", what, kind, fmt.Sprintf(format, a...), b.note, res.code, tail(res.out, 1200), b.yaml)
	}
	switch {
	case res.timeout:
		bad("hung", "")
	case res.crashed():
		bad("crashed", "")
	case res.code <= 0:
		bad("accepted", "should have named %q", b.names)
	default:
		for _, n := range b.names {
			if strings.Contains(res.out, n) {
				r.Count("defects reported", 1)
				if _, known := kindsReported.LoadOrStore(what, true); !known {
					r.Count("kinds of defects reported", 1)
				}
				return
			}
		}
		bad("unnamed", "the message names none of %q", b.names)
	}
}

// config as it is documented.
type yconfig struct {
	Module struct {
		Name string `yaml:"name"`
		Path string `yaml:"path"`
	}
	Targets map[string]*struct {
		Package  string            `yaml:"package"`
		Services map[string]string `yaml:"services"`
		Module   string            `yaml:"module"`
		Out      string            `yaml:"out"`
		GoRPC    []string          `yaml:"gorpc"`
		TSRPC    []string          `yaml:"tsrpc"`
		Skip     bool              `yaml:"skipTSRPCClient"`
	}
	Mappings map[string]*struct {
		Out     string   `yaml:"out"`
		Structs []string `yaml:"structs"`
		Scalars []string `yaml:"scalars"`
		Module  string   `yaml:"module"`
	}
}

// mutateYAML changes some lines or values.
func mutateYAML(g modelGen, y string) string {
	lines := strings.Split(y, "\n")
	at := func() int { return g.Intn(len(lines)) }
	value := func() string {
		return g.of("", "[]", "{}", "null", "x", "12", "true", "- a", "[a, b]", "{a: b}", "\"\"", "*a", "&a b", "!!int x", "|", ">", "{", "[", "'", "2001-01-01", "Service", "casemod/x/y")
	}
	for n := 1 + g.Intn(3); n > 0; n-- {
		i := at()
		switch g.Intn(9) {
		case 0:
			lines = append(lines[:i:i], lines[i+1:]...)
		case 1:
			lines = append(lines[:i:i], append([]string{lines[i]}, lines[i:]...)...)
		case 2:
			k := at()
			lines[i], lines[k] = lines[k], lines[i]
		case 3:
			lines[i] = g.of(" ", "  ", "    ", "\t", "- ", "#") + lines[i]
		case 4:
			lines[i] = strings.TrimPrefix(lines[i], g.of(" ", "  ", "    "))
		case 5, 6:
			if k := strings.Index(lines[i], ": "); k >= 0 {
				lines[i] = lines[i][:k+2] + value()
			} else {
				lines[i] += " " + value()
			}
		case 7:
			if k := strings.Index(lines[i], ":"); k >= 0 {
				lines[i] = lines[i][:len(lines[i])-len(strings.TrimLeft(lines[i], " "))] + value() + lines[i][k:]
			}
		default:
			lines[i] = strings.Replace(lines[i], g.of(":", "/", "[", "]", ",", "a", "e"), g.of("", ":", "/", "]", "x", " "), 1)
		}
		if len(lines) == 0 {
			lines = []string{""}
		}
	}
	return strings.Join(lines, "\n")
}

var mutantTokens = strings.Fields("type interface struct map chan func { } [ ] ( ) * & ... . , ; = : := <- ~ | any string int error Service X _ nil const var import package return \"x\" `json:\"a\"` `json:\"-,\"` `gotsrpc:\"union\"` 'x' 1.5e3 0x1p-2 iota true go defer // /*")

// mutateGo changes some tokens.
func mutateGo(g modelGen, src string) string {
	type tok struct{ from, to int }
	var toks []tok
	var sc scanner.Scanner
	fset := token.NewFileSet()
	f := fset.AddFile("x.go", -1, len(src))
	sc.Init(f, []byte(src), func(token.Position, string) {}, 0)
	for {
		pos, t, lit := sc.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON && lit == "\n" {
			continue
		}
		if lit == "" {
			lit = t.String()
		}
		toks = append(toks, tok{f.Offset(pos), f.Offset(pos) + len(lit)})
	}
	if len(toks) < 4 {
		return src + " " + mutantTokens[g.Intn(len(mutantTokens))]
	}
	texts := make([]string, len(toks))
	gaps := make([]string, len(toks))
	last := 0
	for i, t := range toks {
		gaps[i], texts[i] = src[last:t.from], src[t.from:min(t.to, len(src))]
		last = min(t.to, len(src))
	}
	for n := 1 + g.Intn(3); n > 0; n-- {
		i := g.Intn(len(toks))
		switch g.Intn(5) {
		case 0:
			texts[i] = ""
		case 1:
			texts[i] += " " + texts[i]
		case 2:
			k := g.Intn(len(toks))
			texts[i], texts[k] = texts[k], texts[i]
		case 3:
			texts[i] = mutantTokens[g.Intn(len(mutantTokens))]
		default:
			texts[i] += " " + mutantTokens[g.Intn(len(mutantTokens))]
		}
	}
	var b strings.Builder
	for i := range texts {
		b.WriteString(gaps[i] + texts[i])
	}
	b.WriteString(src[last:])
	return b.String()
}

// p26mutants mutates sources and configurations: the generator must end, and
// what it accepts must be there.
func p26mutants(r *rt.Report) {
	n := r.N(3000, 60000)
	var cases []map[string]string
	for _, f := range caseFiles() {
		cases = append(cases, tree(caseSpace(r, f).dir))
	}
	ns := make([]int, n)
	each(ns, func(i int, _ int) {
		seed := r.Seed*1000000 + 900000 + int64(i)
		g := modelGen{rand.New(rand.NewSource(seed))}
		name := fmt.Sprint("mut", seed)
		w := &wspace{name: name, dir: scratch(r, "p26", name), config: "gotsrpc.yml"}
		defer os.RemoveAll(w.dir)
		var goFiles []string
		if g.chance(2) {
			m := newModel(w.dir, "casemod/"+name, seed)
			m.plain()
			put(w.dir, "go.mod", gomod("casemod/"+name))
			put(w.dir, "gotsrpc.yml", m.yaml(nil))
		} else {
			for n, b := range cases[g.Intn(len(cases))] {
				put(w.dir, n, b)
			}
		}
		src := tree(w.dir)
		for _, n := range sortedKeys(src) {
			if strings.HasSuffix(n, ".go") {
				goFiles = append(goFiles, n)
			}
		}
		kind := "sources"
		if g.chance(2) {
			kind = "configuration"
			put(w.dir, w.config, mutateYAML(g, src[w.config]))
		} else {
			for k := 1 + g.Intn(2); k > 0; k-- {
				f := goFiles[g.Intn(len(goFiles))]
				put(w.dir, f, mutateGo(g, src[f]))
			}
		}
		r.Case(name)
		src = tree(w.dir)
		args := []string{w.config}
		if g.chance(5) { // traces of what there is must not fail either
			args = []string{"-debug", w.config}
			r.Count("mutants read with -debug", 1)
		}
		res := run(w.dir, 30*time.Second, []string{"GOPATH=" + filepath.Join(w.dir, "gopath"), "HOME=" + w.dir, "XDG_CONFIG_HOME=" + filepath.Join(r.Scratch, "config"), "GOFLAGS=-mod=mod", "GOMODCACHE=" + modCache()}, generator(r), args...)
		p26mutant(r, kind, w, src, res)
	})
	r.AtLeast("mutants refused", n/6)
	r.AtLeast("mutants accepted and complete", n/20)
}

var modCache = sync.OnceValue(func() string {
	return strings.TrimSpace(run(".", time.Minute, nil, "go", "env", "GOMODCACHE").stdout)
})

func p26mutant(r *rt.Report, kind string, w *wspace, src map[string]string, res result) {
	bad := func(what, format string, a ...interface{}) {
		var b strings.Builder
		for _, n := range sortedKeys(src) {
			if n != "go.sum" {
				fmt.Fprintf(&b, "-- %s --\n%s\n", n, src[n])
			}
		}
		r.Violate("mutated "+kind+" "+what, "%s: %s: %s\nexit status %d, output: %s\n%s", w.name, what, fmt.Sprintf(format, a...), res.code, tail(res.out, 1200), head(b.String(), 6000))
	}
	var conf yconfig
	yerr := yaml.Unmarshal([]byte(src[w.config]), &conf)
	switch {
	case res.timeout:
		bad("hung", "")
		return
	case res.crashed():
		bad("crashed", "")
		return
	case res.code < 0:
		bad("killed", "")
		return
	case res.code > 0:
		r.Count("mutants refused", 1)
		if strings.TrimSpace(res.out) == "" {
			bad("silent", "no message")
		}
		return
	case yerr != nil:
		bad("accepted", "the configuration cannot be read: %v", yerr)
		return
	}
	got := tree(w.dir)
	complete := true
	for name, t := range conf.Targets {
		if t == nil {
			bad("accepted", "target %s is empty", name)
			return
		}
		rel, inside := strings.CutPrefix(t.Package, conf.Module.Name+"/")
		if !inside || conf.Module.Path != "./" {
			complete = false
			continue
		}
		for _, s := range t.Services {
			if t.Out != "" && !strings.HasPrefix(t.Out, "~") && (len(t.TSRPC) == 0 || contains(t.TSRPC, s)) && !strings.Contains(got[path.Clean(t.Out)], "\nexport class "+s+"Client {") {
				bad("incomplete", "target %s: no client of %s in %s", name, s, t.Out)
			}
			if contains(t.TSRPC, s) && !strings.Contains(got[path.Join(rel, "gotsrpc_gen.go")], s+"GoTSRPCProxy struct {") {
				bad("incomplete", "target %s: no TSRPC proxy of %s", name, s)
			}
			if contains(t.GoRPC, s) && !strings.Contains(got[path.Join(rel, "gorpc_gen.go")], s+"GoRPCProxy struct {") {
				bad("incomplete", "target %s: no GoRPC proxy of %s", name, s)
			}
		}
		for n, b := range src {
			if path.Dir(n) != path.Clean(rel) || !strings.HasSuffix(n, ".go") || isGen(n) || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(path.Base(n), "_") || strings.HasPrefix(path.Base(n), ".") {
				continue
			}
			if used, err := build.Default.MatchFile(filepath.Join(w.dir, rel), path.Base(n)); err == nil && !used {
				continue
			}
			if _, err := parser.ParseFile(token.NewFileSet(), n, b, parser.AllErrors); err != nil {
				bad("accepted", "%s does not parse: %v", n, err)
			}
		}
	}
	if complete && len(conf.Targets) > 0 {
		r.Count("mutants accepted and complete", 1)
	}
}
