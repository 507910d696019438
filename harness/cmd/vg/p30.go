package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/mod/module"

	"verifharness/rt"
)

func init() { checks["P30"] = p30 }

// A layout is a main module with a service that uses types of packages of
// other modules. Every copy of a package, the one Go uses and all those it must
// not use, says in the names of its fields where it is.
type layout struct {
	name    string
	dir     string // the main module
	proxy   string // a module proxy in the file system
	gopath  string
	env     []string
	imports []string
	alias   map[string]string
	pkgName map[string]string
	files   map[string]string // in the main module
	sets    map[string]string
	rnd     *rand.Rand
	kinds   map[string]bool
}

// source is a copy of a package which tells where it is.
func source(name, where string, more bool) string {
	s := "package " + name + "\n\ntype Marker struct {\n\t" + where + " string `json:\"" + where + "\"`\n\tLevel Level `json:\"level\"`\n}\n\ntype Level string\n\nconst " + where + "Level Level = \"" + where + "\"\n"
	if more {
		s += "\nfunc Free() string { return \"\" }\n"
	}
	return s
}

// reNonName is what cannot be in a name.
var reNonName = regexp.MustCompile(`[^A-Za-z0-9]+`)

func mark(parts ...string) string {
	return "At" + reNonName.ReplaceAllString(strings.Join(parts, "_"), "_")
}

// pkgNameOf is the package name that goes with an import path.
func pkgNameOf(p string) string {
	last := path.Base(p)
	if regexp.MustCompile(`^v[0-9]+$`).MatchString(last) {
		last = path.Base(path.Dir(p))
	}
	last = regexp.MustCompile(`\.v[0-9]+$`).ReplaceAllString(last, "")
	last = strings.TrimPrefix(last, "go-")
	return strings.ToLower(reNonName.ReplaceAllString(last, ""))
}

// subPackages of a module.
func subPackages(mod string) []string {
	return []string{mod, mod + "/p", mod + "/p/deep"}
}

// moduleFiles are the files of a module, by name. A fork has the package names
// of what it is a fork of.
func moduleFiles(mod, forkOf, where string) map[string]string {
	files := map[string]string{"go.mod": "module " + mod + "\n\ngo 1.20\n"}
	for _, p := range subPackages(forkOf) {
		d := strings.TrimPrefix(strings.TrimPrefix(p, forkOf), "/")
		n := pkgNameOf(p)
		files[path.Join(d, "a.go")] = source(n, mark(where, d), true)
		files[path.Join(d, "a_test.go")] = "package " + n + "\n\ntype OfTest struct{}\n\nconst MarkedByTest Level = \"of the test\"\n"
		files[path.Join(d, "x_test.go")] = "package " + n + "_test\n\ntype Marker struct { OfTest string }\n"
		files[path.Join(d, "other_windows.go")] = "package " + n + "\n\nconst Windows Level = \"windows\"\n"
		files[path.Join(d, "_old.go")] = source(n, "AtOld", false)
	}
	return files
}

// publish puts a version of a module into the proxy.
func (l *layout) publish(mod, forkOf, version string) {
	esc, err := module.EscapePath(mod)
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(l.proxy, esc, "@v")
	files := moduleFiles(mod, forkOf, "version "+version+" of "+mod)
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	for n, c := range files {
		f, _ := z.Create(mod + "@" + version + "/" + n)
		_, _ = f.Write([]byte(c))
	}
	_ = z.Close()
	put(dir, version+".zip", b.String())
	put(dir, version+".mod", files["go.mod"])
	info, _ := json.Marshal(map[string]string{"Version": version, "Time": "2020-01-01T00:00:00Z"})
	put(dir, version+".info", string(info))
	list, _ := os.ReadFile(filepath.Join(dir, "list"))
	put(dir, "list", string(list)+version+"\n")
}

func (l *layout) of(xs ...string) string { return xs[l.rnd.Intn(len(xs))] }

func (l *layout) chance(n int) bool { return l.rnd.Intn(n) == 0 }

// local puts a copy of a module somewhere below the layout's root.
func (l *layout) local(dir, mod, where string) {
	for n, c := range moduleFiles(mod, mod, where) {
		put(dir, n, c)
	}
}

// newLayout invents a layout.
func newLayout(r *rt.Report, seed int64) *layout {
	root := scratch(r, "p30", fmt.Sprint("l", seed))
	l := &layout{name: fmt.Sprint("l", seed), rnd: rand.New(rand.NewSource(seed)), kinds: map[string]bool{}}
	l.dir, l.proxy, l.gopath = filepath.Join(root, "work", "main"), filepath.Join(root, "proxy"), filepath.Join(root, "gopath")
	cache := filepath.Join(l.gopath, "pkg", "mod")
	l.env = []string{"GO111MODULE=on", "GOPROXY=file://" + l.proxy, "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod -modcacherw", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOMODCACHE="}
	if l.chance(3) {
		cache = filepath.Join(root, "cache", "mod")
		l.env[len(l.env)-1] = "GOMODCACHE=" + cache
		l.kinds["GOMODCACHE"] = true
	}
	gopath := l.gopath
	if l.chance(3) {
		gopath += string(filepath.ListSeparator) + filepath.Join(root, "gopath2")
		l.kinds["several GOPATHs"] = true
	}
	l.env = append(l.env, "GOPATH="+gopath)
	main := l.of("ex.com/main", "main.example/a/b", "ex.com/a/main", "main.mod")
	pool := []string{"ex.com/a", "ex.com/a/b", "ex.com/ab", "ex.com/a/v2", "ex.com/Big/Cases", "gopkg.in/thing.v1", main + "/nested", main + "x", "ex.com/go-lib", "ex.com/c", "ex.com/a-b", "ex.com/a.b"}
	l.rnd.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	mods := pool[:3+l.rnd.Intn(5)]
	var gomod strings.Builder
	fmt.Fprintf(&gomod, "module %s\n\ngo 1.20\n\n", main)
	var reqs, reps []string
	localDirs := map[string]string{main: l.dir}
	for i, mod := range mods {
		unique := fmt.Sprint(reNonName.ReplaceAllString(mod, "-"), i)
		v1, v2 := "v1.0.0", "v1.1.0"
		if strings.HasSuffix(mod, "/v2") {
			v1, v2 = "v2.0.0", "v2.3.4"
		}
		l.publish(mod, mod, v1)
		l.publish(mod, mod, v2)
		v := l.of(v1, v2)
		reqs = append(reqs, mod+" "+v)
		// copies that are not meant
		l.local(filepath.Join(l.gopath, "src", mod), mod, "GOPATH")
		if l.chance(2) {
			l.local(filepath.Join(cache, mod+"@v0.0.1"), mod, "an old version")
		}
		old := mod
		if l.chance(3) {
			old += " " + v
			l.kinds["replacement of a version"] = true
		}
		other := v1
		if v == v1 {
			other = v2
		}
		switch l.rnd.Intn(7) {
		case 0:
			d := unique
			where := l.of("../local/"+d, "./local/"+d, "./"+d, "../"+d)
			l.local(filepath.Join(l.dir, where), mod, "local "+where)
			localDirs[mod] = filepath.Join(l.dir, where)
			reps = append(reps, old+" => "+where)
			l.kinds["local replacement"] = true
		case 1:
			d := filepath.Join(root, "abs", unique)
			l.local(d, mod, "absolute")
			localDirs[mod] = d
			reps = append(reps, old+" => "+d)
			l.kinds["absolute replacement"] = true
		case 2:
			fork := l.of("ex.com/fork/", "ex.com/Forks/") + path.Base(mod) + fmt.Sprint(i)
			if strings.HasSuffix(mod, "/v2") {
				fork = "ex.com/fork/a/v2"
			} else if strings.HasPrefix(mod, "gopkg.in/") {
				fork = "ex.com/fork/thing" + fmt.Sprint(i)
			}
			l.publish(fork, mod, v1)
			reps = append(reps, old+" => "+fork+" "+v1)
			l.kinds["versioned replacement"] = true
		case 3:
			reps = append(reps, old+" => "+mod+" "+other)
			l.kinds["replacement by another version"] = true
		case 4:
			d := "../never/" + unique
			l.local(filepath.Join(l.dir, d), mod, "never")
			reps = append(reps, mod+" "+other+" => "+d)
			l.kinds["replacement of another version"] = true
		default:
			l.kinds["module cache"] = true
		}
		for _, p := range subPackages(mod) {
			if l.chance(2) {
				l.imports = append(l.imports, p)
			}
		}
	}
	// modules in the directories of others, which are not parts of these
	for outer, dir := range localDirs {
		for _, mod := range mods {
			if rel, ok := strings.CutPrefix(mod, outer+"/"); ok && localDirs[mod] != filepath.Join(dir, rel) {
				l.local(filepath.Join(dir, rel), mod, "nested in "+outer)
				l.kinds["a nested module not meant"] = true
			}
		}
	}
	l.rnd.Shuffle(len(reqs), func(i, j int) { reqs[i], reqs[j] = reqs[j], reqs[i] })
	l.rnd.Shuffle(len(reps), func(i, j int) { reps[i], reps[j] = reps[j], reps[i] })
	fmt.Fprintf(&gomod, "require (\n\t%s\n)\n\n", strings.Join(reqs, "\n\t"))
	for _, x := range reps {
		fmt.Fprintf(&gomod, "replace %s\n\n", x)
	}
	put(l.dir, "go.mod", gomod.String())
	// packages of the main module, with test files and files for other systems
	for _, d := range []string{"vo", "ab", "in/ner"} {
		for n, c := range moduleFiles(main+"/"+d, main+"/"+d, "main module "+d) {
			if !strings.Contains(n, "/") && n != "go.mod" {
				put(l.dir, path.Join(d, n), c)
			}
		}
		l.imports = append(l.imports, main+"/"+d)
	}
	l.imports = append(l.imports, "net/url", "time")
	sort.Strings(l.imports)
	var b, fields, mappings strings.Builder
	b.WriteString("package svc\n\nimport (\n")
	names := map[string]int{}
	for _, p := range l.imports {
		names[pkgNameOf(p)]++
	}
	for i, p := range l.imports {
		n := pkgNameOf(p)
		switch {
		case names[n] > 1 || l.chance(3):
			n = fmt.Sprintf("i%d", i)
			fmt.Fprintf(&b, "\t%s %q\n", n, p)
		default:
			fmt.Fprintf(&b, "\t%q\n", p)
		}
		t := "Marker"
		switch p {
		case "net/url":
			t = "Userinfo"
		case "time":
			t = "Duration"
		}
		fmt.Fprintf(&fields, "\tF%d %s%s.%s `json:\"f%d\"`\n", i, l.of("", "*", "[]"), n, t, i)
		fmt.Fprintf(&mappings, "  %s:\n    out: ./ts/m%d.ts\n", p, i)
	}
	fmt.Fprintf(&b, ")\n\ntype H struct {\n%s}\n\ntype Service interface {\n\tGet(h H) H\n}\n", fields.String())
	put(l.dir, "svc/svc.go", b.String())
	modPath := "./"
	if l.chance(3) {
		modPath = l.dir
		l.kinds["absolute module path"] = true
	}
	put(l.dir, "gotsrpc.yml", fmt.Sprintf("module:\n  name: %s\n  path: %s\ntargets:\n  t:\n    services:\n      /svc: Service\n    package: %s/svc\n    out: ./ts/client.ts\nmappings:\n  %s/svc:\n    out: ./ts/svc.ts\n%s", main, modPath, main, main, mappings.String()))
	return l
}

// markerAt reads the names of the fields of the type Marker in a directory, in the files Go would use.
func markerAt(dir string) (fields []string, consts []string, err error) {
	p, err := build.ImportDir(dir, 0)
	if err != nil {
		return nil, nil, err
	}
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, n), nil, 0)
		if err != nil {
			return nil, nil, err
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.TypeSpec:
				if st, ok := s.Type.(*ast.StructType); ok && s.Name.Name == "Marker" {
					for _, fl := range st.Fields.List {
						for _, n := range fl.Names {
							fields = append(fields, n.Name)
						}
					}
				}
			case *ast.ValueSpec:
				if id, ok := s.Type.(*ast.Ident); ok && id.Name == "Level" {
					for _, n := range s.Names {
						consts = append(consts, n.Name)
					}
				}
			}
			return true
		})
	}
	return fields, consts, nil
}

// p30 has the go command say where packages are, and compares what the generator read.
func p30(r *rt.Report) {
	r.Rule = "each case is one package of a layout of modules, whose generated types say which copy of it the generator read, compared with the one the go command uses; distinct by (layout, package)"
	r.Assume = []string{"go list, run with the same environment, knows where a package is", "go.work files are not in use"}
	n := r.N(40, 400)
	ls := make([]*layout, n)
	for i := range ls {
		ls[i] = newLayout(r, r.Seed*10000+int64(i))
	}
	each(ls, func(_ int, l *layout) { p30one(r, l) })
	for _, k := range []string{"module cache", "local replacement", "absolute replacement", "versioned replacement", "replacement by another version", "replacement of another version", "GOMODCACHE", "several GOPATHs", "absolute module path", "vendor", "a nested module not meant"} {
		r.AtLeast("layouts with "+k, 3)
	}
	r.AtLeast("packages compared", 250)
}

func p30one(r *rt.Report, l *layout) {
	listed := run(l.dir, 2*time.Minute, l.env, "go", "list", "-e=false", "-deps", "-f", "{{.ImportPath}}\t{{.Dir}}", "./svc")
	if listed.code != 0 {
		r.Broken("%s: go list: %s\n%s", l.name, head(listed.out, 1500), l.dir)
		return
	}
	l.compare(r, "", listed.stdout, l.env)
	// once more with vendored packages, and no module cache
	if l.chance(3) {
		v := run(l.dir, 2*time.Minute, l.env, "go", "mod", "vendor")
		if v.code != 0 {
			r.Broken("%s: go mod vendor: %s", l.name, tail(v.out, 1500))
			return
		}
		env := append(append([]string{}, l.env...), "GOFLAGS=", "GOMODCACHE="+filepath.Join(l.gopath, "empty"))
		if l.chance(2) {
			env = append(append([]string{}, l.env...), "GOFLAGS=")
		}
		listed := run(l.dir, 2*time.Minute, env, "go", "list", "-deps", "-f", "{{.ImportPath}}\t{{.Dir}}", "./svc")
		if listed.code != 0 {
			r.Broken("%s: go list with vendor: %s", l.name, tail(listed.out, 1500))
			return
		}
		// a vendored copy that was patched
		for _, line := range strings.Split(listed.stdout, "\n") {
			if _, d, _ := strings.Cut(line, "\t"); strings.Contains(d, "/vendor/ex.com") || strings.Contains(d, "/vendor/gopkg.in") {
				b, err := os.ReadFile(filepath.Join(d, "a.go"))
				if err == nil {
					put(d, "a.go", strings.Replace(string(b), "type Marker struct {", "type Marker struct {\n\tVendored string `json:\"Vendored\"`", 1))
				}
			}
		}
		l.kinds["vendor"] = true
		l.compare(r, "vendor: ", listed.stdout, env)
	}
	for k := range l.kinds {
		r.Count("layouts with "+k, 1)
	}
}

var reMember = regexp.MustCompile(`(?m)^\t(\w+)\??:`)

func (l *layout) compare(r *rt.Report, what, list string, env []string) {
	_ = os.RemoveAll(filepath.Join(l.dir, "ts"))
	res := run(l.dir, time.Minute, env, generator(r), "gotsrpc.yml")
	conf, _ := os.ReadFile(filepath.Join(l.dir, "go.mod"))
	if res.code != 0 {
		r.Violate(what+"refused", "%s: the generator gave up with %d: %s\n%s\n%s", l.name, res.code, tail(res.out, 900), conf, strings.Join(env, " "))
		return
	}
	dirs := map[string]string{}
	for _, line := range strings.Split(list, "\n") {
		if p, d, ok := strings.Cut(line, "\t"); ok {
			dirs[p] = d
		}
	}
	for i, p := range l.imports {
		if p == "time" || p == "net/url" {
			continue
		}
		r.Case(l.name + what + p)
		want, consts, err := markerAt(dirs[p])
		if err != nil || len(want) == 0 {
			r.Broken("%s: no marker in %s: %v", l.name, dirs[p], err)
			continue
		}
		b, err := os.ReadFile(filepath.Join(l.dir, fmt.Sprintf("ts/m%d.ts", i)))
		if err != nil {
			r.Violate(what+"missing", "%s: %s was not emitted", l.name, p)
			continue
		}
		_, body, _ := strings.Cut(string(b), "export interface Marker {\n")
		body, _, _ = strings.Cut(body, "}")
		var got []string
		for _, m := range reMember.FindAllStringSubmatch(body, -1) {
			got = append(got, m[1])
		}
		for k := range want {
			if want[k] == "Level" {
				want[k] = "level"
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Violate(what+"package", "%s: %s is in %s with the fields %v, read were %v\n%s\n%s", l.name, p, dirs[p], want, got, conf, strings.Join(env, " "))
		}
		_, body, _ = strings.Cut(string(b), "export enum Level {\n")
		body, _, _ = strings.Cut(body, "}")
		if n := strings.Count(body, " = "); n != len(consts) {
			r.Violate(what+"constants", "%s: %s has the constants %v, emitted were %q", l.name, p, consts, body)
		}
		r.Count("packages compared", 1)
	}
}
