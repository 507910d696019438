package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/iancoleman/strcase"

	"verifharness/rt"
)

func init() { checks["P24"] = p24 }

// goConst is a constant of a named type as Go evaluates it.
type goConst struct {
	name    string
	val     interface{} // string or float64
	f32     bool
	literal bool
}

// goType is a named string or number type.
type goType struct {
	name   string
	prim   string // its TypeScript type
	consts []goConst
}

type goPackage struct {
	scalars map[string]*goType
	unions  map[string][]string // the types of unions' fields, with a dot those of other packages
}

func (p *goPackage) names() map[string]bool {
	names := map[string]bool{}
	for n := range p.scalars {
		names[n] = true
	}
	for n := range p.unions {
		names[n] = true
	}
	return names
}

// readPackage has go/types evaluate the constants of the package in a directory.
func readPackage(dir string) (*goPackage, error) {
	fset := token.NewFileSet()
	ms, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") || strings.HasSuffix(m, "_gen.go") {
			continue
		}
		if used, err := build.Default.MatchFile(dir, filepath.Base(m)); err != nil || !used {
			continue
		}
		f, err := parser.ParseFile(fset, m, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	conf := types.Config{Error: func(error) {}}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	_, _ = conf.Check("p", fset, files, info)
	p := &goPackage{scalars: map[string]*goType{}, unions: map[string][]string{}}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				continue
			}
			for _, s := range g.Specs {
				ts := s.(*ast.TypeSpec)
				obj := info.Defs[ts.Name]
				if obj == nil || ts.Assign != 0 {
					continue
				}
				switch u := obj.Type().Underlying().(type) {
				case *types.Basic:
					t := &goType{name: ts.Name.Name}
					switch {
					case u.Info()&types.IsString != 0:
						t.prim = "string"
					case u.Info()&types.IsBoolean != 0:
						t.prim = "boolean"
					case u.Info()&(types.IsInteger|types.IsFloat) != 0:
						t.prim = "number"
					default:
						if _, ok := ts.Type.(*ast.SelectorExpr); !ok || u.Kind() != types.Invalid {
							continue
						} // of another package, it may be a scalar
					}
					if id, ok := ts.Type.(*ast.Ident); !ok || types.Universe.Lookup(id.Name) == nil {
						t.prim = "" // defined by another named type
					}
					p.scalars[t.name] = t
				case *types.Struct:
					st, ok := ts.Type.(*ast.StructType)
					if !ok {
						continue
					}
					for _, field := range st.Fields.List {
						if field.Tag == nil || !strings.Contains(field.Tag.Value, `gotsrpc:"union"`) {
							continue
						}
						e := field.Type
						if star, ok := e.(*ast.StarExpr); ok {
							e = star.X
						}
						switch e := e.(type) {
						case *ast.Ident:
							p.unions[ts.Name.Name] = append(p.unions[ts.Name.Name], e.Name)
						case *ast.SelectorExpr:
							p.unions[ts.Name.Name] = append(p.unions[ts.Name.Name], "."+e.Sel.Name)
						}
					}
				}
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, id := range vs.Names {
					c, ok := info.Defs[id].(*types.Const)
					if !ok || id.Name == "_" {
						continue
					}
					named := ""
					n, isNamed := c.Type().(*types.Named)
					tid, isIdent := vs.Type.(*ast.Ident)
					if isNamed {
						named = n.Obj().Name()
					} else if isIdent { // the type is one of another package
						named = tid.Name
					}
					t := p.scalars[named]
					if t == nil {
						continue
					}
					gc := goConst{name: id.Name}
					if isIdent && tid.Name == named && i < len(vs.Values) {
						v := vs.Values[i]
						if u, ok := v.(*ast.UnaryExpr); ok && u.Op == token.SUB {
							v = u.X
						}
						_, gc.literal = v.(*ast.BasicLit)
					}
					v := c.Val()
					if v.Kind() == constant.Unknown && gc.literal {
						v = literalValue(vs.Values[i])
					}
					switch v.Kind() {
					case constant.String:
						gc.val = constant.StringVal(v)
					case constant.Int, constant.Float:
						x, _ := constant.Float64Val(v)
						gc.val = x
					default:
						continue
					}
					if b, ok := c.Type().Underlying().(*types.Basic); ok {
						gc.f32 = b.Kind() == types.Float32
					}
					t.consts = append(t.consts, gc)
				}
			}
		}
	}
	return p, nil
}

// literalValue is the value of a possibly negative literal
func literalValue(e ast.Expr) constant.Value {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		return constant.UnaryOp(e.Op, literalValue(e.X), 0)
	case *ast.BasicLit:
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	}
	return constant.MakeUnknown()
}

var identifier = regexp.MustCompile(`^[\pL_$][\pL\p{Nd}_$]*$`)

func (c goConst) equals(x interface{}) bool {
	if f, ok := x.(float64); ok && c.f32 {
		g, ok := c.val.(float64)
		return ok && float32(f) == float32(g)
	}
	return c.val == x
}

// members judges an enum's members: exactly one for every literal constant,
// named after it, and none that is not one of the type's constants.
func (t *goType) members(got map[string]interface{}) (bad string) {
	names := map[string]int{}
	derived := map[string]string{}
	for _, c := range t.consts {
		m := strings.TrimPrefix(strcase.ToCamel(c.name), t.name)
		if !identifier.MatchString(m) {
			m = c.name
		}
		derived[c.name] = m
		names[m]++
		if m != c.name {
			names[c.name]++
		}
	}
	owner := map[string]*goConst{}
	var assign func(c *goConst, seen map[string]bool) bool
	assign = func(c *goConst, seen map[string]bool) bool {
		may := []string{derived[c.name]}
		if names[may[0]] > 1 {
			may = append(may, c.name) // others have that name, too
		}
		for _, m := range may {
			v, ok := got[m]
			if !ok || seen[m] || !c.equals(v) {
				continue
			}
			seen[m] = true
			if owner[m] == nil || assign(owner[m], seen) {
				owner[m] = c
				return true
			}
		}
		return false
	}
	for _, literal := range []bool{true, false} {
		for i := range t.consts {
			c := &t.consts[i]
			if c.literal == literal && !assign(c, map[string]bool{}) && literal {
				return fmt.Sprintf("no member for constant %s = %#v in %#v", c.name, c.val, got)
			}
		}
	}
	for m, v := range got {
		if owner[m] == nil {
			return fmt.Sprintf("member %s = %#v is of no constant", m, v)
		}
	}
	return ""
}

type enumModule struct {
	TS string `json:"ts"`
	JS string `json:"js"`

	dir string
}

type enumJob struct {
	Name    string       `json:"name"`
	Modules []enumModule `json:"modules"`
	w       *wspace
}

type enumResult struct {
	Jobs []struct {
		Modules []struct {
			Error   string                            `json:"error"`
			Objects map[string]map[string]interface{} `json:"objects"`
			Aliases map[string]string                 `json:"aliases"`
		} `json:"modules"`
	} `json:"jobs"`
}

var (
	reMapping = regexp.MustCompile(`(?m)^  (\S+): \{out: (\S+?)\}$|^  (\S+):\n    out: (\S+)$`)
	reModule  = regexp.MustCompile(`(?m)^  name: (\S+)$`)
)

// mapped lists the packages of a workspace's module and their TypeScript files.
func (w *wspace) mapped() (ms []enumModule) {
	b, err := os.ReadFile(filepath.Join(w.dir, w.config))
	if err != nil {
		panic(err)
	}
	_, mappings, _ := strings.Cut(string(b), "\nmappings:\n")
	mod := reModule.FindStringSubmatch(string(b))
	if mod == nil {
		return nil
	}
	for _, m := range reMapping.FindAllStringSubmatch(mappings, -1) {
		pkg, out := m[1]+m[3], m[2]+m[4]
		if pkg == mod[1] || strings.HasPrefix(pkg, mod[1]+"/") {
			f := filepath.Join(w.dir, out)
			if _, err := os.Stat(f); err == nil {
				ms = append(ms, enumModule{TS: f, JS: strings.TrimSuffix(f, ".ts") + ".bundle.mjs", dir: filepath.Join(w.dir, strings.TrimPrefix(pkg, mod[1]))})
			}
		}
	}
	return ms
}

// p24 compares the generated enums, evaluated by node, with the constants as go/types evaluates them.
func p24(r *rt.Report) {
	r.Rule = "each case is one named string or number type that a generated TypeScript module exports, its enum evaluated by node and compared with the constants go/types finds; distinct by (workspace, type)"
	r.Assume = []string{
		"constants of other forms than typed literals (iota, conversions, expressions) may or may not be members",
		"integers beyond 2^53 are compared as the float64 JavaScript has for them",
	}
	ws := []*wspace{fixtureSpace(r)}
	for _, f := range caseFiles() {
		ws = append(ws, caseSpace(r, f))
	}
	for i := 0; i < r.N(10, 80); i++ {
		ws = append(ws, randomSpace(r, r.Seed*10000+7000+int64(i)))
	}
	for i := 0; i < r.N(160, 2000); i++ {
		ws = append(ws, constSpace(r, r.Seed*10000+int64(i)))
	}
	const procs = 6
	parts := make([][]*enumJob, procs)
	jobs := make([]*enumJob, len(ws))
	each(ws, func(i int, w *wspace) {
		res := w.generate(r)
		if res.code != 0 {
			if w.expect == "ok" && strings.HasPrefix(w.name, "consts") {
				r.Violate(w.key("refused"), "%s was refused: %s", w.name, tail(res.out, 600))
			}
			return
		}
		j := &enumJob{Name: w.name, w: w}
		for _, m := range w.mapped() {
			b := run(w.dir, 60*1e9, nil, rt.NodeModules+"/.bin/esbuild", m.TS, "--bundle", "--format=esm", "--log-level=error", "--outfile="+m.JS)
			if b.code != 0 {
				r.Violate(w.key("bundle"), "%s: %s cannot be bundled: %s", w.name, m.TS, tail(b.out, 1500))
				continue
			}
			j.Modules = append(j.Modules, m)
		}
		jobs[i] = j
	})
	for i, j := range jobs {
		if j != nil {
			parts[i%procs] = append(parts[i%procs], j)
		}
	}
	results := make([]enumResult, procs)
	each(parts, func(i int, js []*enumJob) {
		rt.Node(r, "enums.mjs", map[string]interface{}{"lib": rt.TypeScriptLib, "jobs": js}, &results[i])
	})
	for pi, part := range parts {
		if len(results[pi].Jobs) != len(part) {
			r.Broken("a part was not evaluated")
			continue
		}
		for ji, j := range part {
			for mi, m := range j.Modules {
				res := results[pi].Jobs[ji].Modules[mi]
				bad := func(t, format string, a ...interface{}) {
					r.Violate(j.w.key(t), "%s: %s: %s: %s", j.Name, m.TS, t, fmt.Sprintf(format, a...))
				}
				if res.Error != "" {
					bad("module", "%s", res.Error)
					continue
				}
				p, err := readPackage(m.dir)
				if err != nil {
					r.Broken("%s: %v", j.Name, err)
					continue
				}
				seen := map[string]bool{}
				for name := range p.names() {
					// names TypeScript has taken
					if to := name + "_"; tsTaken[name] && !p.names()[to] {
						if o, ok := res.Objects[to]; ok && res.Objects[name] == nil {
							res.Objects[name] = o
							delete(res.Objects, to)
						}
						if a, ok := res.Aliases[to]; ok && res.Aliases[name] == "" {
							res.Aliases[name] = a
						}
					}
				}
				for name, t := range p.scalars {
					got, isEnum := res.Objects[name]
					alias, isAlias := res.Aliases[name]
					literals := 0
					for _, c := range t.consts {
						if c.literal {
							literals++
						}
					}
					seen[name] = true
					if !isEnum && !isAlias {
						if strings.HasPrefix(j.Name, "consts") { // there, all are
							bad(name, "neither an enum nor an alias, although in use")
						}
						continue // not in use
					}
					r.Case(j.Name + m.TS + name)
					switch {
					case isEnum && isAlias:
						bad(name, "both an enum and an alias")
					case isEnum:
						if why := t.members(got); why != "" {
							bad(name, "%s", why)
						}
						r.Count("enums compared", 1)
						r.Count("members compared", len(got))
						if literals > 5 {
							b, _ := json.Marshal(got)
							r.Sample(map[string]string{"enum": j.Name + " " + name, "members": string(b)})
						}
					case literals > 0:
						bad(name, "an alias of %s, but it has %d constants", alias, literals)
					default:
						if t.prim != "" && alias != t.prim {
							bad(name, "an alias of %s, wanted %s", alias, t.prim)
						}
						r.Count("aliases compared", 1)
					}
				}
				for name, fields := range p.unions {
					got, ok := res.Objects[name]
					if !ok {
						continue
					}
					seen[name] = true
					want := map[string]map[string]bool{}
					later := map[string]bool{}
					for _, f := range fields {
						e := res.Objects[f]
						if n, other := strings.CutPrefix(f, "."); other {
							for oi, o := range results[pi].Jobs[ji].Modules {
								if oi != mi && o.Objects[n] != nil {
									e = o.Objects[n]
								}
							}
						}
						for k, v := range e {
							if f > name {
								// the enum comes after the union
								later[k] = true
							}
							if want[k] == nil {
								want[k] = map[string]bool{}
							}
							want[k][fmt.Sprint(v)] = true
						}
					}
					for k, vs := range want {
						v, ok := got[k]
						switch {
						case !ok && later[k]:
							r.Violate("union-order", "%s: %s is evaluated before the enum with %s is", j.Name, name, k)
						case !ok:
							bad(name, "the union has no member %s", k)
						case !vs[fmt.Sprint(v)]:
							bad(name, "member %s of the union is %v", k, v)
						case len(vs) > 1:
							r.Violate("union-collision", "%s: %s: members named %s of several enums", j.Name, name, k)
						}
					}
					for k := range got {
						if want[k] == nil {
							bad(name, "member %s of the union is of no enum", k)
						}
					}
					r.Count("unions of constants compared", 1)
				}
				for name := range res.Objects {
					if !seen[name] {
						bad(name, "is of no type with constants")
					}
				}
			}
		}
	}
	r.AtLeast("enums compared", 250)
	r.AtLeast("members compared", 1200)
	r.AtLeast("aliases compared", 60)
	r.AtLeast("unions of constants compared", 5)
}

var tsTaken = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(`any as bigint boolean never number object string symbol undefined unknown void null true false
		break case catch class const continue debugger default delete do else enum export extends finally for function if import in
		instanceof new return super switch this throw try typeof var while with let static yield await implements interface package
		private protected public type declare module namespace arguments eval`) {
		m[n] = true
	}
	return m
}()

// constSpace writes a package with constants of all forms.
func constSpace(r *rt.Report, seed int64) *wspace {
	n := fmt.Sprintf("consts%d", seed)
	w := &wspace{name: n, dir: scratch(r, "consts", n), config: "gotsrpc.yml", expect: "ok"}
	g := &constGen{Rand: rand.New(rand.NewSource(seed))}
	mod := "casemod/" + n
	put(w.dir, "go.mod", gomod(mod))
	put(w.dir, "go.sum", gosum())
	put(w.dir, w.config, fmt.Sprintf("module:\n  name: %s\n  path: ./\ntargets:\n  t:\n    services: {/svc: Service}\n    package: %s/svc\n    out: ./ts/client.ts\n    tsrpc: [Service]\nmappings:\n  %s/svc: {out: ./ts/svc.ts}\n  %s/dep: {out: ./ts/dep.ts}\n", mod, mod, mod, mod))
	dep := g.pkg(w.dir, "dep", "")
	g.pkg(w.dir, "svc", mod+"/dep", dep...)
	return w
}

type constGen struct {
	*rand.Rand
	used map[string]bool
}

func (g *constGen) of(xs ...string) string { return xs[g.Intn(len(xs))] }

func (g *constGen) name(t string) string {
	for {
		word := g.of("Red", "Blue", "Green", "Open", "Closed", "Error", "None", "All", "Default", "New", "Class", "Two", "URL", "ID", "HTTPStatus", "Ünder", "A", "B")
		var n string
		switch g.Intn(12) {
		case 0, 1, 2, 3:
			n = t + word
		case 4:
			n = word + t
		case 5:
			n = strings.ToUpper(t) + "_" + strings.ToUpper(word)
		case 6:
			n = strings.ToLower(t) + word
		case 7:
			n = t + "_" + strings.ToLower(word)
		case 8:
			n = word + g.of("", "1", "22", "_3", "_x")
		case 9:
			n = t + g.of("1", "2x", "99", "_", "__")
		case 10:
			n = strings.ToLower(word[:1]) + word[1:] + fmt.Sprint(g.Intn(10))
		default:
			n = word + g.of("Red", "Kind", "Value")
		}
		if !g.used[n] && token.IsIdentifier(n) && types.Universe.Lookup(n) == nil {
			g.used[n] = true
			return n
		}
	}
}

func (g *constGen) value(base string) string {
	switch base {
	case "string":
		return g.of(`""`, `"x"`, `"some-value"`, `"with space"`, "`raw \\n`", "`quo\"te`", "`raw ${x}`", "`two\nlines`", `"q\"uote"`, `"\u00e9"`, `"\x41"`, `"\101"`, `"tab\tnl\n"`, `"ünï"`, `"\U0001F600"`, `"\a\b\v"`, `"it's"`, `"${x}"`, `"</script>"`, "`back\\slash`", `"1"`, `"true"`, fmt.Sprintf("%q", fmt.Sprint("v", g.Intn(1000))))
	case "rune", "int32":
		return g.of("'a'", "'日'", `'\n'`, `'\''`, `'é'`, `'\x00'`, `'\u00e9'`, "-1", "0", "7", "0x7fffffff", "-0x10", "1_000", "0b101", "0o17", "017")
	case "float32", "float64":
		return g.of("1.5", "-0.25", ".5", "1.", "1e3", "-1E-3", "0.1", "3", "-7", "1_0.2_5", "0x1p-2", "0X1.8p1", "'a'", "00.5", "1e+2", "010")
	case "uint8", "byte":
		return g.of("0", "1", "0xff", "255", "'z'", "0b11", "007", "0x_1f", "1_0")
	case "uint64":
		return g.of("0", "18446744073709551615", "0xFFFF_FFFF", "1", "42", "9007199254740993", "0O17", "0B1")
	default:
		return g.of("0", "1", "-1", "42", "-42", "0x10", "-0xF", "010", "1_000_000", "0b1", "0o7", "'c'", "9223372036854775807", "-9223372036854775808", "9007199254740991", "0x_F", "0_7", "2", "3", "1e3")
	}
}

// pkg writes a package and returns its types that others can name.
func (g *constGen) pkg(dir, name, depPath string, dep ...string) (exported []string) {
	g.used = map[string]bool{}
	type typ struct{ name, base string }
	var ts []typ
	stems := []string{"Kind", "Color", "Level", "State", "Unit", "Code", "Lang", "Mode"}
	g.Shuffle(len(stems), func(i, j int) { stems[i], stems[j] = stems[j], stems[i] })
	for i := 0; i < 4+g.Intn(3); i++ {
		n := stems[i]
		if g.Intn(8) == 0 {
			n = strings.ToLower(n)
		}
		g.used[n] = true
		ts = append(ts, typ{n, g.of("string", "string", "string", "int", "int64", "uint8", "float64", "float32", "rune", "int32", "uint64", "byte", "bool", "int8")})
	}
	files := []*strings.Builder{{}, {}}
	f := func() *strings.Builder { return files[g.Intn(2)] }
	for i, b := range files {
		fmt.Fprintf(b, "package %s\n\n", name)
		if i == 0 && depPath != "" {
			fmt.Fprintf(b, "import %q\n\n", depPath)
		}
	}
	for _, t := range ts {
		decl := func() { fmt.Fprintf(f(), "type %s %s\n\n", t.name, t.base) }
		early := g.Intn(2) == 0
		if early {
			decl()
		}
		k := g.Intn(9)
		if t.base == "bool" || g.Intn(4) == 0 {
			k = 0
		}
		val := func() string {
			if t.base == "int8" {
				return g.of("-128", "127", "0", "-1", "0x10", "'a'")
			}
			return g.value(t.base)
		}
		for k > 0 {
			b := f()
			switch g.Intn(5) {
			case 0:
				fmt.Fprintf(b, "const %s %s = %s\n\n", g.name(t.name), t.name, val())
				k--
			case 1:
				fmt.Fprintf(b, "const %s, %s %s = %s, %s\n\n", g.name(t.name), g.name(t.name), t.name, val(), val())
				k -= 2
			default:
				fmt.Fprintf(b, "const (\n")
				for i := 1 + g.Intn(4); i > 0; i-- {
					switch g.Intn(9) {
					case 0:
						fmt.Fprintf(b, "\t%s = %s // untyped\n", g.name(t.name), val())
					case 1:
						fmt.Fprintf(b, "\t_ %s = %s\n", t.name, val())
					default:
						fmt.Fprintf(b, "\t%s %s = %s\n", g.name(t.name), t.name, val())
						k--
					}
				}
				fmt.Fprintf(b, ")\n\n")
			}
		}
		if !early {
			decl()
		}
		if t.base == "bool" && g.Intn(2) == 0 {
			fmt.Fprintf(f(), "const %s %s = true\n\n", g.name(t.name), t.name)
		}
		if t.base == "string" && g.Intn(3) == 0 {
			fmt.Fprintf(f(), "const %s = %s(\"converted\")\n\nvar %s %s = \"variable\"\n\n", g.name(t.name), t.name, g.name(t.name), t.name)
		}
		if g.Intn(4) == 0 && t.base != "bool" {
			fmt.Fprintf(f(), "func %s() { const local %s = %s; _ = local }\n\n", g.name("F"), t.name, val())
		}
		if token.IsExported(t.name) {
			exported = append(exported, t.name)
		}
	}
	// constants of tests are not part of the package
	test := "package " + name + "\n\n"
	for _, t := range ts {
		if t.base == "string" {
			test += fmt.Sprintf("const %s %s = \"of a test\"\n", g.name(t.name), t.name)
		}
	}
	put(dir, name+"/x_test.go", test)
	b := files[0]
	var fields []string
	for i, t := range ts {
		fields = append(fields, fmt.Sprintf("\tF%d %s `json:\"f%d\"`\n", i, g.of(t.name, "*"+t.name, "[]"+t.name, "map[string]"+t.name), i))
	}
	if name == "dep" {
		fmt.Fprintf(b, "type Holder struct {\n%s}\n", strings.Join(fields, ""))
	} else {
		for i, d := range dep {
			fields = append(fields, fmt.Sprintf("\tD%d dep.%s `json:\"d%d\"`\n", i, d, i))
		}
		// a union of the constants of two string types
		var strs []string
		for _, t := range ts {
			if t.base == "string" && strings.Contains(files[0].String()+files[1].String(), " "+t.name+" = ") {
				strs = append(strs, t.name)
			}
		}
		sort.Strings(strs)
		if len(strs) > 1 && g.litConst(files, strs[0]) && g.litConst(files, strs[1]) {
			union := g.of("Either", "Zip", "Zip", "Zip") // before and after the enums
			fmt.Fprintf(b, "type %s struct {\n\tX *%s `json:\"x,omitempty\" gotsrpc:\"union\"`\n\tY *%s `json:\"y,omitempty\" gotsrpc:\"union\"`\n}\n\n", union, strs[0], strs[1])
			fields = append(fields, "\tEither "+union+" `json:\"either\"`\n")
		}
		fmt.Fprintf(b, "type Holder struct {\n%s\tDep *dep.Holder `json:\"dep\"`\n}\n\ntype Service interface {\n\tGet(h Holder) *Holder\n}\n", strings.Join(fields, ""))
	}
	for i, b := range files {
		put(dir, fmt.Sprintf("%s/%c.go", name, 'a'+rune(i)), b.String())
	}
	return exported
}

// litConst tells whether there is a typed literal constant of the type.
func (g *constGen) litConst(files []*strings.Builder, t string) bool {
	re := regexp.MustCompile(`(?m)^(const |\t)[^_\s]\S*(, \S+)? ` + t + " = [\"`]")
	return re.MatchString(files[0].String()) || re.MatchString(files[1].String())
}
