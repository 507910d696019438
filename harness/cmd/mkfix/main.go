// mkfix writes a random fixture: a service package and four packages it takes
// types from (two of them with the same name, one whose directory is not named
// like the package), using different import aliases in different files, and a
// gotsrpc configuration for it. Everything is derived from the seed.
//
//	mkfix -seed 1 -root . -name rnd
package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type kind int

const (
	kScalar kind = iota // builtin
	kAny
	kTime
	kBytes
	kPtr
	kSlice
	kMap
	kNamed
	kAnon
)

type typ struct {
	kind      kind
	name      string // scalar or named
	key, elem *typ
	decl      *decl
	fields    []field
	n         int // length of an array
}

type field struct {
	name, tag string
	t         *typ
	embed     bool
}

type decl struct {
	pkg    *pkg
	name   string
	file   int
	under  *typ // scalar, slice, map; nil for struct
	fields []field
	consts [][2]string
	gobOK  bool // no interfaces, no pointers inside containers
	rec    bool
}

type pkg struct {
	dir, path, name string
	decls           []*decl
	deps            []*pkg
}

var (
	r    *rand.Rand
	uniq int
)

func pick(xs ...string) string { return xs[r.Intn(len(xs))] }
func chance(p float64) bool    { return r.Float64() < p }

var scalars = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "rune", "byte"}

var words = []string{"Order", "Item", "Price", "User", "Addr", "Page", "Block", "Color", "Level", "State", "Node", "Tag", "Group", "Media", "Shop", "Cart", "Line", "Note", "Rule", "Unit"}

func gobSafe(t *typ, inContainer bool) bool {
	switch t.kind {
	case kAny:
		return false
	case kPtr:
		if t.elem.kind == kSlice || t.elem.kind == kMap {
			return false
		}
		return !inContainer && gobSafe(t.elem, inContainer) && t.elem.kind != kNamed || !inContainer && t.elem.kind == kNamed && t.elem.decl.under == nil && t.elem.decl.gobOK
	case kSlice:
		return t.n == 0 && gobSafe(t.elem, true)
	case kMap:
		return gobSafe(t.key, true) && gobSafe(t.elem, true)
	case kNamed:
		return t.decl.gobOK
	case kAnon:
		exported := false
		for _, f := range t.fields {
			exported = exported || !strings.HasPrefix(f.name, "priv")
			if !gobSafe(f.t, inContainer) {
				return false
			}
		}
		return exported
	}
	return true
}

func (p *pkg) visible() (ds []*decl) {
	ds = append(ds, p.decls...)
	for _, d := range p.deps {
		ds = append(ds, d.decls...)
	}
	return
}

func named(d *decl) *typ { return &typ{kind: kNamed, decl: d} }

func (p *pkg) keyType() *typ {
	if chance(0.4) {
		var ks []*decl
		for _, d := range p.visible() {
			if d.under != nil && d.under.kind == kScalar && (d.under.name == "string" || strings.Contains(d.under.name, "int")) {
				ks = append(ks, d)
			}
		}
		if len(ks) > 0 {
			return named(ks[r.Intn(len(ks))])
		}
	}
	return &typ{kind: kScalar, name: pick("string", "string", "string", "int", "int64", "uint32", "int8")}
}

func (p *pkg) typ(depth int) *typ {
	n := r.Intn(20)
	if depth > 3 && n >= 8 && n < 14 {
		n = r.Intn(8)
	}
	switch {
	case n < 5:
		return &typ{kind: kScalar, name: scalars[r.Intn(len(scalars))]}
	case n == 5:
		return &typ{kind: kTime}
	case n == 6:
		return &typ{kind: kBytes}
	case n == 7:
		if chance(0.4) {
			return &typ{kind: kAny}
		}
		return &typ{kind: kScalar, name: "string"}
	case n < 10:
		// pointer: to a scalar, a time, a named scalar or a struct
		if depth < 3 && chance(0.1) {
			return &typ{kind: kPtr, elem: pickTyp(
				&typ{kind: kSlice, elem: p.typ(depth + 1)},
				&typ{kind: kSlice, n: 2, elem: p.typ(depth + 1)},
				&typ{kind: kMap, key: p.keyType(), elem: p.typ(depth + 1)})}
		}
		for {
			e := p.typ(9)
			switch e.kind {
			case kScalar, kTime:
				return &typ{kind: kPtr, elem: e}
			case kNamed:
				if e.decl.under == nil || e.decl.under.kind == kScalar {
					return &typ{kind: kPtr, elem: e}
				}
			}
		}
	case n < 12:
		t := &typ{kind: kSlice, elem: p.typ(depth + 1)}
		if chance(0.15) {
			t.n = 1 + r.Intn(3)
		}
		return t
	case n < 14:
		return &typ{kind: kMap, key: p.keyType(), elem: p.typ(depth + 1)}
	default:
		ds := p.visible()
		if len(ds) == 0 {
			return &typ{kind: kScalar, name: pick(scalars...)}
		}
		return named(ds[r.Intn(len(ds))])
	}
}

func pickTyp(ts ...*typ) *typ { return ts[r.Intn(len(ts))] }

func (p *pkg) declName() string {
	uniq++
	n := words[r.Intn(len(words))]
	for _, d := range p.decls {
		if d.name == n {
			return fmt.Sprintf("%s%c%d", n, 'A'+rune(r.Intn(26)), uniq)
		}
	}
	return n // same names in different packages are welcome
}

func (p *pkg) addScalar(base string, consts int) {
	d := &decl{pkg: p, name: p.declName(), file: r.Intn(2), under: &typ{kind: kScalar, name: base}, gobOK: true}
	for i := 0; i < consts; i++ {
		uniq++
		name := d.name + []string{"One", "Two", "Three", "Four", "Five"}[i]
		var v string
		switch {
		case base == "string":
			v = fmt.Sprintf("%q", pick("", "x", "some-value", "with space", "ü", `quo"te`)+fmt.Sprint(uniq))
		case strings.HasPrefix(base, "float"):
			v = fmt.Sprintf("%d.5", uniq)
		case strings.HasPrefix(base, "uint") || base == "byte":
			v = fmt.Sprint(uniq % 200)
		default:
			v = pick("", "-") + fmt.Sprint(uniq%100+1)
		}
		d.consts = append(d.consts, [2]string{name, v})
	}
	p.decls = append(p.decls, d)
}

func (p *pkg) addNamedContainer() {
	d := &decl{pkg: p, file: r.Intn(2)}
	t := p.typ(2)
	switch r.Intn(3) {
	case 0:
		d.under = &typ{kind: kMap, key: p.keyType(), elem: t}
	default:
		d.under = &typ{kind: kSlice, elem: t}
	}
	d.gobOK = gobSafe(d.under, false)
	d.name = p.declName()
	p.decls = append(p.decls, d)
}

func tagFor(name string) string {
	uniq++
	lc := strings.ToLower(name[:1]) + name[1:]
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		return fmt.Sprintf("`json:%q`", lc)
	case 4, 5:
		return fmt.Sprintf("`json:%q`", lc+",omitempty")
	case 6:
		return "`json:\",omitempty\"`"
	case 7:
		return fmt.Sprintf("`json:%q`", pick("ke-bab", "sna_ke", "$dollar", "dot.ted", "1digit", "@at", "with space", "ünï", "class", "_")+fmt.Sprint(uniq))
	case 8:
		return fmt.Sprintf("`yaml:\"y\" json:%q bson:\"x\"`", lc)
	default:
		return ""
	}
}

func (p *pkg) structFields(n int, allowAnon bool) (fs []field) {
	for i := 0; i < n; i++ {
		uniq++
		f := field{name: fmt.Sprintf("%s%d", words[r.Intn(len(words))], uniq), t: p.typ(0)}
		if allowAnon && chance(0.06) {
			f.t = &typ{kind: kAnon, fields: p.structFields(1+r.Intn(3), false)}
		}
		f.tag = tagFor(f.name)
		if chance(0.05) {
			f.tag = "`json:\"-\"`"
		}
		if chance(0.05) {
			f.name = "priv" + f.name
			f.tag = ""
		}
		fs = append(fs, f)
	}
	return
}

func (p *pkg) addStruct() {
	d := &decl{pkg: p, file: r.Intn(2), gobOK: true}
	d.name = p.declName()
	uniq++
	d.fields = append([]field{{name: fmt.Sprintf("ID%d", uniq), t: &typ{kind: kScalar, name: "string"}}}, p.structFields(1+r.Intn(6), true)...)
	for _, f := range d.fields {
		if !strings.HasPrefix(f.name, "priv") && f.tag != "`json:\"-\"`" && !gobSafe(f.t, false) {
			d.gobOK = false
		}
		if f.tag == "`json:\"-\"`" && !gobSafe(f.t, false) {
			d.gobOK = false
		}
	}
	if chance(0.3) {
		// embed a struct inline
		var ss []*decl
		for _, e := range p.visible() {
			if e.under == nil && !e.rec {
				ss = append(ss, e)
			}
		}
		if len(ss) > 0 {
			e := ss[r.Intn(len(ss))]
			d.fields = append([]field{{name: e.name, t: named(e), tag: "`json:\",inline\"`", embed: true}}, d.fields...)
			d.gobOK = d.gobOK && e.gobOK
		}
	}
	if chance(0.25) {
		uniq++
		self := named(d)
		var t *typ
		switch r.Intn(3) {
		case 0:
			t = &typ{kind: kPtr, elem: self}
		case 1:
			t = &typ{kind: kSlice, elem: self}
		default:
			t = &typ{kind: kMap, key: &typ{kind: kScalar, name: "string"}, elem: self}
		}
		d.rec = true
		d.gobOK = false
		d.fields = append(d.fields, field{name: fmt.Sprintf("Self%d", uniq), t: t, tag: pick("", "`json:\"self\"`", "`json:\"self,omitempty\"`")})
	}
	p.decls = append(p.decls, d)
}

func fill(p *pkg) {
	p.addScalar("string", 2+r.Intn(3))
	p.addScalar(pick("int", "int64", "uint8", "float64", "int32"), 1+r.Intn(3))
	p.addScalar(pick("string", "bool", "int", "float32", "uint16"), 0)
	p.addStruct()
	p.addNamedContainer()
	p.addStruct()
	for i := r.Intn(3); i > 0; i-- {
		if chance(0.6) {
			p.addStruct()
		} else {
			p.addNamedContainer()
		}
	}
}

// emission

type file struct {
	p       *pkg
	alias   map[string]string // import path -> local name
	plain   map[string]bool
	used    map[string]bool
	b       strings.Builder
	timeNm  string
	useTime bool
	useHTTP bool
	httpNm  string
}

func (f *file) q(t *typ) string {
	switch t.kind {
	case kScalar:
		return t.name
	case kAny:
		return "interface{}"
	case kTime:
		f.useTime = true
		return f.timeNm + ".Time"
	case kBytes:
		return "[]byte"
	case kPtr:
		return "*" + f.q(t.elem)
	case kSlice:
		if t.n > 0 {
			return fmt.Sprintf("[%d]", t.n) + f.q(t.elem)
		}
		return "[]" + f.q(t.elem)
	case kMap:
		return "map[" + f.q(t.key) + "]" + f.q(t.elem)
	case kNamed:
		if t.decl.pkg == f.p {
			return t.decl.name
		}
		f.used[t.decl.pkg.path] = true
		return f.alias[t.decl.pkg.path] + "." + t.decl.name
	case kAnon:
		s := "struct {\n"
		for _, x := range t.fields {
			s += x.name + " " + f.q(x.t) + " " + x.tag + "\n"
		}
		return s + "}"
	}
	panic("kind")
}

var argNames = []string{"a", "b", "id", "name", "err", "w", "r", "p", "rw", "args", "reply", "ctx", "req", "response", "tsc", "delete", "new", "class", "function", "this", "await", "data", "url", "endPoint", "client", "value", "_x", "aB", "X", "clientErr", "rets", "enum", "let", "in", "callStats", "funcName"}

type svc struct {
	name string
	gob  bool
}

func main() {
	seed := flag.Int64("seed", 1, "")
	root := flag.String("root", ".", "")
	name := flag.String("name", "rnd", "")
	mod := flag.String("module", "verifharness", "")
	flag.Parse()
	r = rand.New(rand.NewSource(*seed*7919 + 17))

	base := *mod + "/" + *name
	mk := func(dir, pn string) *pkg {
		if dir == "" {
			return &pkg{dir: *name, path: base, name: pn}
		}
		return &pkg{dir: *name + "/" + dir, path: base + "/" + dir, name: pn}
	}
	xvo, yvo, bp, al, top := mk("x/vo", "vo"), mk("y/vo", "vo"), mk("b-pkg", "bpkg"), mk("alpha", "alpha"), mk("", *name)
	bp.deps = []*pkg{xvo}
	al.deps = []*pkg{xvo, yvo, bp}
	top.deps = []*pkg{xvo, yvo, bp, al}
	pkgs := []*pkg{xvo, yvo, bp, al, top}
	for _, p := range pkgs {
		fill(p)
	}

	newFile := func(p *pkg, i int) *file {
		f := &file{p: p, alias: map[string]string{}, plain: map[string]bool{}, used: map[string]bool{}, timeNm: "time", httpNm: "http"}
		if chance(0.3) {
			f.timeNm = "stdtime"
		}
		if chance(0.3) {
			f.httpNm = "nethttp"
		}
		if i == 0 {
			f.alias[xvo.path], f.plain[xvo.path] = "vo", true
			f.alias[yvo.path] = "yvo"
			f.alias[al.path], f.plain[al.path] = "alpha", true
		} else {
			f.alias[xvo.path] = "xvo"
			f.alias[yvo.path], f.plain[yvo.path] = "vo", true
			f.alias[al.path] = "al"
		}
		f.alias[bp.path] = []string{"bpkg", "bb"}[i]
		return f
	}
	write := func(f *file, fn string) {
		var h strings.Builder
		fmt.Fprintf(&h, "package %s\n\n", f.p.name)
		var ims []string
		for path := range f.used {
			if f.plain[path] {
				ims = append(ims, fmt.Sprintf("%q", path))
			} else {
				ims = append(ims, fmt.Sprintf("%s %q", f.alias[path], path))
			}
		}
		std := func(use bool, nm, path string) {
			if !use {
				return
			}
			if filepath.Base(path) == nm {
				ims = append(ims, fmt.Sprintf("%q", path))
			} else {
				ims = append(ims, fmt.Sprintf("%s %q", nm, path))
			}
		}
		std(f.useTime, f.timeNm, "time")
		std(f.useHTTP, f.httpNm, "net/http")
		sort.Strings(ims)
		if len(ims) > 0 {
			fmt.Fprintf(&h, "import (\n\t%s\n)\n\n", strings.Join(ims, "\n\t"))
		}
		p := filepath.Join(*root, f.p.dir, fn)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(h.String()+f.b.String()), 0o644); err != nil {
			panic(err)
		}
	}
	emitDecls := func(p *pkg, i int, f *file) {
		for _, d := range p.decls {
			if d.file != i {
				continue
			}
			if d.under != nil {
				fmt.Fprintf(&f.b, "type %s %s\n\n", d.name, f.q(d.under))
			} else {
				fmt.Fprintf(&f.b, "type %s struct {\n", d.name)
				for _, x := range d.fields {
					if x.embed {
						fmt.Fprintf(&f.b, "\t%s %s\n", f.q(x.t), x.tag)
					} else {
						fmt.Fprintf(&f.b, "\t%s %s %s\n", x.name, f.q(x.t), x.tag)
					}
				}
				fmt.Fprintf(&f.b, "}\n\n")
			}
			if len(d.consts) > 0 {
				fmt.Fprintf(&f.b, "const (\n")
				for _, c := range d.consts {
					fmt.Fprintf(&f.b, "\t%s %s = %s\n", c[0], d.name, c[1])
				}
				fmt.Fprintf(&f.b, ")\n\n")
			}
		}
	}

	svcs := []svc{{"RndA", false}, {"RndB", false}, {"RndRPC", true}}
	for _, p := range pkgs {
		for i := 0; i < 2; i++ {
			f := newFile(p, i)
			emitDecls(p, i, f)
			if p == top {
				for si, s := range svcs {
					if si%2 == i {
						emitService(f, p, s)
					}
				}
			}
			write(f, []string{"a.go", "b.go"}[i])
		}
	}

	var y strings.Builder
	fmt.Fprintf(&y, "module:\n  name: %s\n  path: ./\ntargets:\n  %s:\n    package: %s\n    services:\n", *mod, *name, base)
	var names []string
	for _, s := range svcs {
		fmt.Fprintf(&y, "      /%s/Svc/%s-%d: %s\n", *name, s.name, len(s.name), s.name)
		names = append(names, s.name)
	}
	fmt.Fprintf(&y, "    out: ./ts/%s/client.ts\n    tsrpc: [%s]\n    gorpc: [RndRPC]\nmappings:\n", *name, strings.Join(names, ", "))
	for _, p := range pkgs {
		fmt.Fprintf(&y, "  %s:\n    out: ./ts/%s/%s.ts\n", p.path, *name, strings.ReplaceAll(p.dir, "/", "_"))
	}
	fmt.Fprintf(&y, "  time:\n    out: ./ts/%s/time.ts\n", *name)
	if err := os.WriteFile(filepath.Join(*root, *name+".yml"), []byte(y.String()), 0o644); err != nil {
		panic(err)
	}
}

func emitService(f *file, p *pkg, s svc) {
	fmt.Fprintf(&f.b, "type %s interface {\n", s.name)
	used := map[string]bool{}
	n := 14
	for m := 0; m < n; m++ {
		var mn string
		for mn == "" || used[mn] {
			mn = pick("Get", "Set", "Find", "All", "Do", "Put") + pick("", "", "All", "By", words[r.Intn(len(words))], "X1")
		}
		used[mn] = true
		ok := func(t *typ) bool { return !s.gob || gobSafe(t, false) }
		next := func() *typ {
			for {
				if t := p.typ(0); ok(t) {
					return t
				}
			}
		}
		names := r.Perm(len(argNames))
		ni := 0
		nm := func() string { ni++; return argNames[names[ni-1]] }
		var ps []string
		// the names in scope as packages must not be shadowed within the signature: harmless in Go, types resolve outside
		if chance(0.15) {
			f.useHTTP = true
			ps = append(ps, "rw0 "+f.httpNm+".ResponseWriter", "rq0 *"+f.httpNm+".Request")
		}
		blank := len(ps) == 0 && chance(0.07)
		for i := r.Intn(5); i > 0; i-- {
			t := next()
			switch {
			case blank:
				ps = append(ps, f.q(t))
			case chance(0.2):
				ps = append(ps, nm()+", "+nm()+" "+f.q(t))
			default:
				ps = append(ps, nm()+" "+f.q(t))
			}
		}
		var rs []string
		isNamed := chance(0.4)
		for i := r.Intn(4); i > 0; i-- {
			t := next()
			if isNamed {
				rs = append(rs, nm()+" "+f.q(t))
			} else {
				rs = append(rs, f.q(t))
			}
		}
		fmt.Fprintf(&f.b, "\t%s(%s) (%s)\n", mn, strings.Join(ps, ", "), strings.Join(rs, ", "))
	}
	fmt.Fprintf(&f.b, "}\n\n")
}
