package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/rt"
)

// wspace is a scratch directory the generator is run in.
type wspace struct {
	name, dir string
	config    string // file name
	expect    string // ok, loud or "" (either, but never half)
	services  []svcSpec
}

type svcSpec struct{ pkg, name, endpoint string }

func scratch(r *rt.Report, parts ...string) string {
	d := filepath.Join(append([]string{r.Scratch, "ws"}, parts...)...)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func put(dir, name, content string) {
	p := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(err)
	}
}

var reSection = regexp.MustCompile(`^-- (\S+) --$`)

// unpack writes the files of a txtar-like text.
func unpack(text, dir string) (files []string, head string) {
	var name string
	var b strings.Builder
	flush := func() {
		if name != "" {
			put(dir, name, b.String())
			files = append(files, name)
		} else {
			head = b.String()
		}
		b.Reset()
	}
	sc := bufio.NewScanner(strings.NewReader(text))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		if m := reSection.FindStringSubmatch(sc.Text()); m != nil {
			flush()
			name = m[1]
			continue
		}
		b.WriteString(sc.Text() + "\n")
	}
	flush()
	return
}

func gomod(module string) string {
	b, err := os.ReadFile("go.mod") // the harness' own, in the scratch copy
	if err != nil {
		panic(err)
	}
	return regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(b), "module "+module)
}

func gosum() string {
	b, err := os.ReadFile("go.sum")
	if err != nil {
		panic(err)
	}
	return string(b)
}

// caseSpace unpacks a case of the table: one service in package svc.
func caseSpace(r *rt.Report, file string) *wspace {
	name := strings.TrimSuffix(filepath.Base(file), ".txt")
	w := &wspace{name: name, dir: scratch(r, "case", name), config: "gotsrpc.yml", expect: "ok"}
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	files, head := unpack(string(b), w.dir)
	if f := strings.Fields(head); len(f) >= 2 && f[0] == "expect:" {
		w.expect = f[1]
	}
	mod := "casemod/" + name
	put(w.dir, "go.mod", gomod(mod))
	put(w.dir, "go.sum", gosum())
	dirs := map[string]bool{}
	own := false
	for _, f := range files {
		if strings.HasSuffix(f, ".go") {
			dirs[filepath.Dir(f)] = true
		}
		own = own || f == w.config
	}
	if !own {
		var y strings.Builder
		fmt.Fprintf(&y, "module:\n  name: %s\n  path: ./\ntargets:\n  t:\n    services: {/svc: Service}\n    package: %s/svc\n    out: ./ts/client.ts\n    tsrpc: [Service]\n    gorpc: [Service]\nmappings:\n", mod, mod)
		var ds []string
		for d := range dirs {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			fmt.Fprintf(&y, "  %s/%s: {out: ./ts/%s.ts}\n", mod, d, strings.NewReplacer("/", "_", "-", "__").Replace(d))
		}
		fmt.Fprintf(&y, "  time: {out: ./ts/time.ts}\n")
		put(w.dir, w.config, y.String())
	}
	w.services = []svcSpec{{mod + "/svc", "Service", "/svc"}}
	for _, l := range strings.Split(head, "\n") { // packages and endpoints of services
		if f := strings.Fields(l); len(f) > 1 && f[0] == "services:" {
			w.services = nil
			for i := 1; i+1 < len(f); i += 2 {
				w.services = append(w.services, svcSpec{path.Join(mod, f[i]), "Service", f[i+1]})
			}
		}
	}
	return w
}

// randomSpace writes a random fixture into a module of its own.
func randomSpace(r *rt.Report, seed int64) *wspace {
	n := fmt.Sprintf("rnd%d", seed)
	w := &wspace{name: n, dir: scratch(r, "rnd", n), config: n + ".yml", expect: "ok"}
	put(w.dir, "go.mod", gomod("verifharness"))
	put(w.dir, "go.sum", gosum())
	if out, err := exec.Command(filepath.Join(r.Scratch, "mkfix"), "-seed", fmt.Sprint(seed), "-root", w.dir, "-name", n).CombinedOutput(); err != nil {
		panic(fmt.Sprintf("mkfix: %v %s", err, out))
	}
	for _, s := range []string{"RndA", "RndB", "RndRPC"} {
		w.services = append(w.services, svcSpec{"verifharness/" + n, s, fmt.Sprintf("/%s/Svc/%s-%d", n, s, len(s))})
	}
	return w
}

// result of a run of a command.
type result struct {
	code    int
	out     string // both streams
	stdout  string
	timeout bool
	wall    time.Duration
}

func run(dir string, limit time.Duration, env []string, name string, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	if env != nil {
		c.Env = append(os.Environ(), env...)
	}
	var both, so lockedBuffer
	c.Stdout = &tee{&both, &so}
	c.Stderr = &both
	c.WaitDelay = 5 * time.Second
	start := time.Now()
	err := c.Run()
	res := result{out: both.String(), stdout: so.String(), wall: time.Since(start)}
	switch e := err.(type) {
	case nil:
	case *exec.ExitError:
		res.code = e.ExitCode()
	default:
		res.code = -1
		res.out += err.Error()
	}
	if ctx.Err() != nil {
		res.timeout = true
	}
	return res
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type tee struct{ a, b *lockedBuffer }

func (t *tee) Write(p []byte) (int, error) {
	_, _ = t.a.Write(p)
	return t.b.Write(p)
}

func generator(r *rt.Report) string { return filepath.Join(r.Scratch, "gotsrpc") }

// generate runs the generator in the workspace.
func (w *wspace) generate(r *rt.Report, env ...string) result {
	return run(w.dir, 60*time.Second, env, generator(r), w.config)
}

// crashed tells whether a run ended in a crash of Go's runtime instead of a verdict.
func (res result) crashed() bool {
	return regexp.MustCompile(`(?m)^(panic: |fatal error: |SIGSEGV|goroutine \d+ \[)`).MatchString(res.out)
}

// tree reads all files below dir.
func tree(dir string) map[string]string {
	fsys := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = []byte("unreadable: " + err.Error())
		}
		rel, _ := filepath.Rel(dir, p)
		fsys[rel] = string(b)
		return nil
	})
	return fsys
}

// each runs f over the items on all cores.
func each[T any](items []T, f func(i int, x T)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, x := range items {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, x T) {
			defer wg.Done()
			f(i, x)
			<-sem
		}(i, x)
	}
	wg.Wait()
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func caseFiles() []string {
	fs, _ := filepath.Glob("cases/*.txt")
	sort.Strings(fs)
	return fs
}

// fixtureSpace is the fixture written by hand, in a copy of its own.
func fixtureSpace(r *rt.Report) *wspace {
	w := &wspace{name: "fx", dir: scratch(r, "fx"), config: "gotsrpc.yml", expect: "ok"}
	put(w.dir, "go.mod", gomod("verifharness"))
	put(w.dir, "go.sum", gosum())
	for _, f := range []string{"gotsrpc.yml", "fx/service.go", "fx/vo.go", "fx/more.go", "fx/shapes.go"} {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		put(w.dir, f, string(b))
	}
	for name, b := range tree("fx/other") {
		put(w.dir, filepath.Join("fx/other", name), b)
	}
	return w
}
