package rt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// out is the check's output; the code under test gets standard error instead.
var out = func() *os.File {
	o := os.Stdout
	os.Stdout = os.Stderr
	return o
}()

// Report collects what a check observed and gives its verdict.
type Report struct {
	Prop, Tier string
	Seed       int64
	Thorough   bool
	Verif      string // /verif
	Scratch    string
	Rule       string
	Assume     []string

	start    time.Time
	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	samples  []interface{}
	keys     []interface{} // of some cases
	counters map[string]int
	sets     map[string]map[string]struct{}
	viol     []Violation
	broken   []string
	min      map[string]int
}

type Violation struct {
	Key    string      `json:"key"`
	Msg    string      `json:"msg"`
	Detail interface{} `json:"detail,omitempty"`
}

func NewReport(prop string) *Report {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	return &Report{
		Prop: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough", Verif: verif, Scratch: os.Getenv("VERIF_SCRATCH"),
		start: time.Now(), distinct: map[uint64]struct{}{}, counters: map[string]int{}, sets: map[string]map[string]struct{}{}, min: map[string]int{},
	}
}

// Limit ends a quick run that takes too long, with what was found until then:
// an answer that comes too late is none.
func (r *Report) Limit() {
	if !r.Thorough {
		time.AfterFunc(10*time.Minute, func() {
			r.Broken("not done after 10 minutes")
			r.Finish()
		})
	}
}

// N picks the amount of work for the tier.
func (r *Report) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Case counts one evaluated case; key tells distinct ones apart. An empty key
// is a trivial case.
func (r *Report) Case(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		r.distinct[h.Sum64()] = struct{}{}
		if n := len(r.distinct); n&(n-1) == 0 { // 1, 2, 4, 8, …
			if len(key) > 300 {
				key = key[:300]
			}
			r.keys = append(r.keys, fmt.Sprintf("case: %.400q", key))
		}
	}
}

// Progress is a number that grows with what is observed.
func (r *Report) Progress() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := r.evals
	for _, c := range r.counters {
		n += c
	}
	return n
}

// Count counts observed events of a kind.
func (r *Report) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// See records a distinct observed state of a kind.
func (r *Report) See(name, v string) {
	r.mu.Lock()
	if r.sets[name] == nil {
		r.sets[name] = map[string]struct{}{}
	}
	r.sets[name][v] = struct{}{}
	r.mu.Unlock()
}

func (r *Report) Counter(name string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// AtLeast makes the run inconclusive when fewer events than n were observed.
func (r *Report) AtLeast(name string, n int) { r.min[name] = n }

func (r *Report) Sample(s interface{}) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Violate records a violation. key identifies the failing thing (not the run).
func (r *Report) Violate(key, f string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, v := range r.viol {
		if v.Key == key {
			r.counters["repeats of "+key]++
			return
		}
	}
	if len(r.viol) < 200 {
		m := fmt.Sprintf(f, a...)
		if len(m) > 4000 {
			m = m[:4000] + "…"
		}
		r.viol = append(r.viol, Violation{Key: key, Msg: m})
	}
}

func (r *Report) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

// Broken records that the check itself could not do its work.
func (r *Report) Broken(f string, a ...interface{}) {
	r.mu.Lock()
	r.broken = append(r.broken, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
}

func (r *Report) findings() (fs []finding) {
	f, err := os.Open(filepath.Join(r.Verif, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		if line := strings.TrimSpace(sc.Text()); line != "" {
			var x finding
			if err := json.Unmarshal([]byte(line), &x); err != nil {
				r.broken = append(r.broken, fmt.Sprintf("known_findings.jsonl: %v", err))
				continue
			}
			if x.Property == r.Prop && x.Status == "known" {
				fs = append(fs, x)
			}
		}
	}
	return
}

var reRaceFrame = regexp.MustCompile(`(?m)^  ([^ \n]+)\(.*\)\n\s+(\S+):(\d+)`)

// Races reads the race detector's log and turns reports into violations.
func (r *Report) Races() {
	pat := filepath.Join(r.Scratch, "race.*")
	files, _ := filepath.Glob(pat)
	blocks := 0
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			blocks++
			var key []string
			ours := false
			for _, m := range reRaceFrame.FindAllStringSubmatch(blk, -1) {
				if strings.Contains(m[1], "foomo/gotsrpc") || strings.HasSuffix(m[2], "_gen.go") {
					ours = true
				}
				if len(key) < 4 {
					key = append(key, m[1])
				}
			}
			if ours {
				r.Violate("race:"+strings.Join(key, "<"), "data race reported by the race detector:\n%s", blk)
			} else {
				r.Broken("data race outside gotsrpc:\n%s", blk)
			}
		}
	}
	r.Count("race reports", blocks)
}

// Finish writes the evidence and ends the process.
func (r *Report) Finish() {
	r.Races()
	r.mu.Lock() // for good
	known := r.findings()
	var fresh []Violation
	knownSeen := map[string]bool{}
	for _, v := range r.viol {
		hit := false
		for _, k := range known {
			if k.Key == v.Key {
				hit, knownSeen[k.Key] = true, true
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	for _, k := range known {
		if knownSeen[k.Key] {
			fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
		}
	}
	var names []string
	for n := range r.min {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if os.Getenv("VERIF_MARGINS") != "" && r.counters[n] < 2*r.min[n] {
			fmt.Fprintf(out, "MARGIN %s %q: %d of at least %d\n", r.Prop, n, r.counters[n], r.min[n])
		}
		if r.counters[n] < r.min[n] {
			r.broken = append(r.broken, fmt.Sprintf("observed only %d %s, wanted at least %d", r.counters[n], n, r.min[n]))
		}
	}
	obs := map[string]int{}
	for k, v := range r.counters {
		obs[k] = v
	}
	for k, v := range r.sets {
		obs["distinct "+k] = len(v)
	}
	for i := len(r.keys) - 1; i >= 0 && len(r.samples) < 12; i-- {
		r.samples = append(r.samples, r.keys[i])
	}
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "none recorded")
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.Rule, "samples": r.samples, "observed": obs,
		},
		"assumptions": r.Assume,
		"wall_s":      time.Since(r.start).Seconds(), "violations": len(fresh),
	}
	dir := filepath.Join(r.Verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(out, "BROKEN evidence:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(out, "BROKEN evidence:", err)
		os.Exit(2)
	}
	if len(fresh) > 0 {
		replay := filepath.Join(dir, r.Prop+".replay.json")
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": r.Prop, "seed": r.Seed, "tier": r.Tier, "violations": fresh,
			"how": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bin/check %s", r.Seed, r.Tier, r.Prop),
		}, "", " ")
		_ = os.WriteFile(replay, append(b, '\n'), 0o644)
		for i, v := range fresh {
			if i < 8 {
				fmt.Fprintf(out, "  [%s] %s\n", v.Key, v.Msg)
			}
		}
		fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", r.Prop, replay)
		os.Exit(1)
	}
	if len(r.broken) > 0 {
		for i, b := range r.broken {
			if i < 8 {
				fmt.Fprintln(out, "BROKEN", b)
			}
		}
		os.Exit(2)
	}
	fmt.Fprintf(out, "OK property=%s evaluations=%d distinct=%d %v (%.1fs)\n", r.Prop, r.evals, len(r.distinct), obs, time.Since(r.start).Seconds())
	os.Exit(0)
}
