package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifharness/rt"
)

func init() { checks["P25"] = p25 }

var genFiles = []string{"gorpc_gen.go", "gorpcclient_gen.go", "gotsrpc_gen.go", "gotsrpcclient_gen.go"}

func isGen(name string) bool {
	for _, g := range genFiles {
		if filepath.Base(name) == g {
			return true
		}
	}
	return false
}

var reTargetPackage = regexp.MustCompile(`(?m)^    package: (\S+)$`)

// targetDirs are the directories of the targets' packages that are in the module.
func (w *wspace) targetDirs(src map[string]string) (dirs []string) {
	mod := reModule.FindStringSubmatch(src[w.config])
	if mod == nil {
		return nil
	}
	for _, m := range reTargetPackage.FindAllStringSubmatch(src[w.config], -1) {
		if rel, ok := strings.CutPrefix(m[1], mod[1]+"/"); ok {
			dirs = append(dirs, rel)
		}
	}
	return dirs
}

// differ tells how a tree differs from the one wanted; what the generator
// cannot know of (TypeScript files of other configurations) may be there.
func differ(want, got map[string]string) string {
	names := map[string]bool{}
	for n := range want {
		names[n] = true
	}
	for n := range got {
		if strings.HasSuffix(n, ".go") {
			names[n] = true
		}
	}
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	for _, n := range sorted {
		a, inWant := want[n]
		b, inGot := got[n]
		switch {
		case !inGot:
			return n + " is missing"
		case !inWant:
			return n + " is left over"
		case a != b:
			return n + " differs: " + firstDiff(a, b)
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			other := "(end)"
			if i < len(lb) {
				other = lb[i]
			}
			return fmt.Sprintf("line %d: %q, then %q", i+1, head(la[i], 200), head(other, 200))
		}
	}
	return fmt.Sprintf("line %d: (end), then %q", len(la)+1, head(lb[len(la)], 200))
}

// writeTree writes the files in random order.
func writeTree(rnd *rand.Rand, dir string, files map[string]string) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	rnd.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names {
		put(dir, n, files[n])
	}
}

// p25 generates over and over: in place, elsewhere, over leftovers, after
// other sources and configurations, and after being killed.
func p25(r *rt.Report) {
	r.Rule = "each case is one run of the generator whose results are compared byte by byte with those of a first run on pristine sources; distinct by (workspace, history)"
	r.Assume = []string{
		"TypeScript files which the configuration at hand does not write may be left over",
		"a run ends with the result of the first one only if it was not killed",
	}
	var ws []*wspace
	ws = append(ws, fixtureSpace(r))
	for _, f := range caseFiles() {
		ws = append(ws, caseSpace(r, f))
	}
	for i := 0; i < r.N(6, 40); i++ {
		ws = append(ws, randomSpace(r, r.Seed*10000+2000+int64(i)))
	}
	for i := 0; i < r.N(6, 60); i++ {
		ws = append(ws, constSpace(r, r.Seed*10000+3000+int64(i)))
	}
	for i := 0; i < r.N(6, 60); i++ {
		ws = append(ws, modelSpace(r, r.Seed*10000+4000+int64(i)))
	}
	each(ws, func(i int, w *wspace) { p25one(r, w, rand.New(rand.NewSource(r.Seed*1000+int64(i)))) })
	r.AtLeast("runs in place", 200)
	r.AtLeast("runs with -debug", 60)
	r.AtLeast("runs elsewhere", 60)
	r.AtLeast("runs over leftovers", 60)
	r.AtLeast("runs after others", 60)
	r.AtLeast("runs after one killed while it wrote", 3)
	r.AtLeast("TypeScript files not rewritten", 200)
}

// modelSpace is an invented module with several targets and relative paths.
func modelSpace(r *rt.Report, seed int64) *wspace {
	name := fmt.Sprintf("model%d", seed)
	w := &wspace{name: name, dir: scratch(r, "ws", name), config: "gotsrpc.yml"}
	put(w.dir, "go.mod", gomod("casemod/"+name))
	put(w.dir, "go.sum", gosum())
	m := newModel(w.dir, "casemod/"+name, seed)
	m.plain()
	put(w.dir, w.config, m.yaml(nil))
	return w
}

func p25one(r *rt.Report, w *wspace, rnd *rand.Rand) {
	bad := func(what, format string, a ...interface{}) {
		r.Violate(w.key("repeat"), "%s: %s: %s", w.name, what, fmt.Sprintf(format, a...))
	}
	src := tree(w.dir)
	modes := map[string]os.FileMode{}
	for n := range src {
		if st, err := os.Stat(filepath.Join(w.dir, n)); err == nil {
			modes[n] = st.Mode()
		}
	}
	first := w.generate(r)
	want := tree(w.dir)
	unmodified := func(what string, dir string) {
		for n, b := range src {
			got, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil || string(got) != b {
				bad(what, "the source %s was modified (%v)", n, err)
			} else if st, err := os.Stat(filepath.Join(dir, n)); err != nil || dir == w.dir && st.Mode() != modes[n] {
				bad(what, "the mode of %s was changed", n)
			}
		}
	}
	unmodified("first run", w.dir)
	if first.code != 0 {
		// refused: then always
		for i := 0; i < r.N(2, 8); i++ {
			if res := w.generate(r); res.code != first.code {
				bad("refused", "status %d, then %d: %s", first.code, res.code, tail(res.out, 300))
			}
			r.Case(fmt.Sprint(w.name, "refused", i))
			r.Count("runs refused again", 1)
		}
		return
	}
	outs := map[string]string{}
	for n, b := range want {
		if _, ok := src[n]; !ok {
			outs[n] = b
		}
	}

	// in place
	past := time.Unix(1500000000, 0)
	inode := func(n string) uint64 {
		st, err := os.Stat(filepath.Join(w.dir, n))
		if err != nil {
			return 0
		}
		return st.Sys().(*syscall.Stat_t).Ino
	}
	for i := 0; i < r.N(4, 16); i++ {
		inodes := map[string]uint64{}
		for n := range outs {
			if strings.HasSuffix(n, ".ts") {
				_ = os.Chtimes(filepath.Join(w.dir, n), past, past)
				inodes[n] = inode(n)
			}
		}
		args := []string{[]string{w.config, "./" + w.config, filepath.Join(w.dir, w.config)}[rnd.Intn(3)]}
		if i == 1 {
			args = append([]string{"-debug"}, args...)
			r.Count("runs with -debug", 1)
		}
		res := run(w.dir, time.Minute, []string{fmt.Sprintf("GOMAXPROCS=%d", 1+rnd.Intn(8))}, generator(r), args...)
		if res.code != 0 {
			bad("again in place", "status %d: %s", res.code, tail(res.out, 300))
			return
		}
		if d := differ(want, tree(w.dir)); d != "" {
			bad("again in place", "%s", d)
		}
		for n, ino := range inodes {
			st, err := os.Stat(filepath.Join(w.dir, n))
			if err != nil || !st.ModTime().Equal(past) || inode(n) != ino {
				bad("again in place", "%s was rewritten", n)
			}
			r.Count("TypeScript files not rewritten", 1)
		}
		r.Case(fmt.Sprint(w.name, "place", i))
		r.Count("runs in place", 1)
	}

	// fresh copies at other places
	fresh := func(parts ...string) string {
		dir := scratch(r, append([]string{"p25", w.name}, parts...)...)
		writeTree(rnd, dir, src)
		return dir
	}
	again := func(what, dir string, env ...string) bool {
		w2 := *w
		w2.dir = dir
		res := w2.generate(r, env...)
		r.Case(w.name + what)
		if res.code != 0 {
			bad(what, "status %d: %s", res.code, tail(res.out, 300))
			return false
		}
		if d := differ(want, tree(dir)); d != "" {
			bad(what, "%s", d)
		}
		unmodified(what, dir)
		return true
	}
	for i := 0; i < r.N(2, 8); i++ {
		place := []string{"a b", "src/" + w.name, "x/vendor.d/y/z", "ünï", "pkg/mod/casemod"}[rnd.Intn(5)]
		dir := fresh(fmt.Sprint("copy", i), place)
		if again(fmt.Sprint("in ", place), dir, "LC_ALL=C", "TZ=Asia/Tokyo", fmt.Sprintf("GOMAXPROCS=%d", 1+rnd.Intn(3)), "HOME="+dir) {
			r.Count("runs elsewhere", 1)
		}
	}

	// over leftovers
	dirs := w.targetDirs(src)
	garbage := func(pkg string) string {
		return []string{
			"",
			"not go at all {",
			"package " + pkg + "\n\nfunc (",
			"package other\n\ntype Service struct{}\n",
			"package " + pkg + "\n\ntype Service struct{ X int }\n\ntype Service2 interface { A() }\n",
			"//go:build never\n\npackage " + pkg + "\n",
			"package " + pkg + "\n\nimport \"nowhere/at/all\"\n\nvar _ = all.X\n",
		}[rnd.Intn(7)]
	}
	pkgOf := func(dir string) string {
		for n, b := range src {
			if filepath.Dir(n) == dir && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
				if m := regexp.MustCompile(`(?m)^package (\w+)`).FindStringSubmatch(b); m != nil && m[1] != "main" {
					return m[1]
				}
			}
		}
		return "p"
	}
	for i := 0; i < r.N(2, 10); i++ {
		dir := fresh(fmt.Sprint("left", i))
		for _, d := range dirs {
			for _, g := range genFiles {
				n := filepath.Join(d, g)
				switch k := rnd.Intn(6); {
				case k == 0:
				case k == 1 && outs[n] != "":
					put(dir, n, outs[n][:rnd.Intn(len(outs[n]))])
				case k == 2 && outs[n] != "":
					put(dir, n, outs[n])
				default:
					put(dir, n, garbage(pkgOf(d)))
				}
			}
		}
		for n, b := range outs {
			if strings.HasSuffix(n, ".ts") {
				switch rnd.Intn(6) {
				case 0:
				case 5:
					k := rnd.Intn(len(b))
					put(dir, n, b[:k]+"~"+b[k+1:])
				case 1:
					put(dir, n, b[:rnd.Intn(len(b))])
				case 2:
					put(dir, n, b+"\nexport const more = 1\n")
				case 3:
					put(dir, n, "")
				default:
					put(dir, n, b)
				}
			}
		}
		if again(fmt.Sprint("over leftovers ", i), dir) {
			r.Count("runs over leftovers", 1)
		}
	}

	// after other configurations, other sources and failures
	for i := 0; i < r.N(2, 8); i++ {
		dir := fresh(fmt.Sprint("after", i))
		w2 := *w
		w2.dir = dir
		var steps []string
		for k := 1 + rnd.Intn(3); k > 0; k-- {
			step := ""
			switch rnd.Intn(4) {
			case 0:
				step = "another configuration"
				c := src[w.config]
				switch rnd.Intn(4) {
				case 0:
					c = regexp.MustCompile(`(?m)^    gorpc: .*\n(      - .*\n)*`).ReplaceAllString(c, "")
				case 1:
					c = regexp.MustCompile(`(?m)^    tsrpc: .*\n(      - .*\n)*`).ReplaceAllString(c, "")
				case 2:
					c = regexp.MustCompile(`(?m)^    package: .*\n`).ReplaceAllString(c, "${0}    skipTSRPCClient: true\n")
				default:
					c = strings.ReplaceAll(strings.ReplaceAll(c, "out: ./", "out: ./elsewhere/"), "out: ts", "out: elsewhere/ts")
				}
				put(dir, w.config, c)
			case 1:
				step = "another method"
				for n, b := range src {
					if m := regexp.MustCompile(`(?m)^type \w+ interface \{`).FindString(b); m != "" && strings.HasSuffix(n, ".go") {
						put(dir, n, strings.Replace(b, m, m+" ZAdded(zAdded []string) map[string]int;", 1))
						break
					}
				}
			case 2:
				step = "sources in the middle of an edit"
				var names []string
				for n, b := range src {
					if strings.HasSuffix(n, ".go") && len(b) > 10 {
						names = append(names, n)
					}
				}
				sort.Strings(names)
				n := names[rnd.Intn(len(names))]
				put(dir, n, src[n][:10+rnd.Intn(len(src[n])-10)])
			default:
				step = "more types"
				for _, d := range dirs {
					put(dir, filepath.Join(d, "zz_more.go"), "package "+pkgOf(d)+"\n\ntype ZMore struct { A int; B *ZMore }\n\ntype ZKind string\n\nconst ZKindA ZKind = \"a\"\n")
				}
			}
			steps = append(steps, step)
			w2.generate(r)
			writeTree(rnd, dir, src)
			for _, d := range dirs {
				_ = os.Remove(filepath.Join(dir, d, "zz_more.go"))
			}
		}
		if again(fmt.Sprint("after ", strings.Join(steps, ", ")), dir) {
			r.Count("runs after others", 1)
		}
	}

	// after having been killed
	for i := 0; i < r.N(1, 6); i++ {
		dir := fresh(fmt.Sprint("kill", i))
		c := exec.Command(generator(r), w.config)
		c.Dir = dir
		if err := c.Start(); err != nil {
			r.Broken("%v", err)
			return
		}
		exited := make(chan struct{})
		go func() {
			_ = c.Wait()
			close(exited)
		}()
		var wait <-chan time.Time // any time, or as soon as something is written
		if rnd.Intn(2) == 0 {
			wait = time.After(time.Duration(rnd.Int63n(int64(first.wall + time.Millisecond))))
		}
		for written := false; !written; {
			select {
			case <-wait:
				written = true
			case <-exited:
				written = true
			default:
				for f := range outs {
					if _, err := os.Stat(filepath.Join(dir, f)); err == nil && wait == nil {
						written = true
						break
					}
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
		_ = c.Process.Kill()
		<-exited
		n := 0
		for f := range outs {
			if _, err := os.Stat(filepath.Join(dir, f)); err == nil {
				n++
			}
		}
		if n > 0 && n < len(outs) {
			r.Count("runs after one killed while it wrote", 1)
		}
		if again(fmt.Sprint("after being killed ", i), dir) {
			r.Count("runs after one killed", 1)
		}
	}
}
