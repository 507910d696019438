package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"reflect"
	"sync"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	gotsprom "github.com/foomo/gotsrpc/v2/prometheus"
	"verifharness/errs"
	"verifharness/rt"
)

func init() { checks["P09"] = p09 }

// p09 reconciles the log of stats, Monitor calls and prometheus metrics with
// the executions a recording service saw.
func p09(r *rt.Report) {
	r.Rule = "each case is one request whose CallStats, Monitor call and metrics were reconciled with what was executed and sent; distinct by (service, method, encoding, arguments, results, way of ending)"
	r.Assume = []string{"sizes: requests with a Content-Length and arguments, replies with encoded results"}
	d := &p09rig{r: r, prom: map[string]*p09sum{}, kept: map[*gotsrpc.CallStats]gotsrpc.CallStats{}}
	gotsrpc.Monitor = d.monitor
	for si, s := range services {
		d.s, d.rc = s, &recorder{}
		proxy := s.Default(d.rc.hook)
		d.inst = gotsrpc.InstrumentedService(proxy.ServeHTTP, d.handle)
		d.plain = proxy
		d.nested = func(w http.ResponseWriter, req *http.Request) { // a middleware with a context of its own
			req = gotsrpc.RequestWithStatsContext(req)
			proxy.ServeHTTP(w, req)
			if st, ok := gotsrpc.GetStatsForRequest(req); ok {
				d.handle(st)
			}
		}
		d.promh = gotsprom.InstrumentService(proxy.ServeHTTP)
		for mi, sig := range s.Sigs() {
			for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
				rnd := rand.New(rand.NewSource(r.Seed*1e6 + int64(si*1000+mi)))
				n := r.N(10, 150)
				if sig.HasError {
					n *= 6
				}
				for i := 0; i < n; i++ {
					d.one(sig, w, rnd, i)
				}
			}
		}
	}
	for st, was := range d.kept {
		if *st != was {
			r.Violate("stats shared", "stats %+v became %+v after they were handled", was, *st)
		}
	}
	d.metrics()
	d.gorpc()
	r.AtLeast("stats reconciled", 600)
	r.AtLeast("monitor calls reconciled", 600)
	r.AtLeast("errors in stats", 100)
	r.AtLeast("prometheus series reconciled", 100)
}

type monitored struct {
	w          http.ResponseWriter
	req        *http.Request
	args, rets []interface{}
	stats      *gotsrpc.CallStats
}

type p09sum struct {
	n   uint64
	sum float64
}

type p09rig struct {
	r     *rt.Report
	s     *rt.Service
	rc    *recorder
	inst  http.Handler
	plain http.Handler
	promh http.Handler

	nested http.HandlerFunc

	mu    sync.Mutex
	stats []*gotsrpc.CallStats
	mons  []monitored
	prom  map[string]*p09sum
	kept  map[*gotsrpc.CallStats]gotsrpc.CallStats // what handlers may have kept
}

func (d *p09rig) handle(st *gotsrpc.CallStats) {
	d.mu.Lock()
	d.stats = append(d.stats, st)
	d.mu.Unlock()
}

func (d *p09rig) monitor(w http.ResponseWriter, req *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
	d.mu.Lock()
	d.mons = append(d.mons, monitored{w, req, args, rets, stats})
	d.mu.Unlock()
}

func (d *p09rig) take() ([]*gotsrpc.CallStats, []monitored) {
	d.mu.Lock()
	defer d.mu.Unlock()
	s, m := d.stats, d.mons
	d.stats, d.mons = nil, nil
	return s, m
}

type p09ctx struct{}

// ways a request is made to end
const (
	wOK = iota
	wStatus
	wUnknown
	wBadArgs
	wUnencodable
)

func (d *p09rig) one(sig rt.Sig, w rt.Wire, rnd *rand.Rand, i int) {
	r, s := d.r, d.s
	if s.Name == "UnionService" && w == rt.JSON && len(sig.In) == 0 {
		return
	}
	g := gen(rnd.Int63(), w)
	g.Big = i == 0
	in := values(g, sig.In)
	out := values(g, sig.Out)
	rets := ifaces(out)
	for k, t := range sig.Out {
		if t.Implements(rt.TypeErr) && rnd.Intn(4) > 0 {
			if t == rt.TypeErr {
				e := p05leaf(g)
				if rnd.Intn(5) == 0 {
					e = errs.Coded{Text: g.Str() + ".", Code: rnd.Intn(3) - 1}
				}
				if w == rt.Msgpack || rnd.Intn(2) == 0 {
					for n := rnd.Intn(3); n > 0; n-- {
						e = p05wrap(g, e)
					}
				}
				rets[k] = e
			}
		}
	}
	body, err := newTapper(s, w).body(sig.Name, in)
	if body == nil && len(sig.In) > 0 {
		r.Violate("encode", "%s.%s: %v", s.Name, sig.Name, err)
		return
	}
	way := wOK
	name := sig.Name
	switch k := rnd.Intn(10); {
	case k == 0 && sig.HTTP:
		way = wStatus
	case k == 1:
		way, name = wUnknown, sig.Name+"z"
	case k == 2 && len(body) > 0:
		way, body = wBadArgs, body[:len(body)-1]
	case k == 3 && len(rets) > 0 && sig.Out[0].Kind() == reflect.Interface && sig.Out[0] != rt.TypeErr:
		way, rets[0] = wUnencodable, complex(1, 2)
	}
	nap := time.Duration(0)
	if rnd.Intn(6) == 0 {
		nap = 2 * time.Millisecond
	}
	d.rc.mu.Lock()
	d.rc.events, d.rc.rets = nil, rets
	var inner time.Duration
	d.rc.on = func(e event) {
		t := time.Now()
		time.Sleep(nap)
		if way == wStatus {
			http.Error(e.w, "own", 403)
		}
		inner = time.Since(t)
	}
	d.rc.mu.Unlock()
	d.take()
	mk := func() *http.Request {
		req, _ := http.NewRequestWithContext(context.WithValue(context.Background(), p09ctx{}, i), "POST", "http://x"+s.Endpoint()+"/"+name, bytes.NewReader(body))
		req.Header.Set("Content-Type", ct(w))
		return req
	}
	mode := rnd.Intn(4)
	h := []http.Handler{d.inst, d.nested, d.promh, d.plain}[mode]
	t := time.Now()
	req := mk()
	a := serve(h, req)
	wall := time.Since(t)
	stats, mons := d.take()
	es := d.rc.take()
	at := fmt.Sprintf("%s.%s over %s (mode %d, way %d) returning %s", s.Name, sig.Name, w, mode, way, rt.ShowAll(rets))
	if a.panicky != "" {
		r.Violate("panic", "%s: %s", at, a.panicky)
		return
	}
	executed := way != wUnknown && way != wBadArgs
	if executed != (len(es) == 1) {
		r.Violate("executed", "%s: %d executions", at, len(es))
		return
	}
	// the monitor
	wantMon := 1
	if !executed || way == wUnencodable {
		wantMon = 0
	}
	if len(mons) != wantMon {
		r.Violate("monitor count", "%s: Monitor was called %d times, wanted %d", at, len(mons), wantMon)
	} else if wantMon == 1 {
		m := mons[0]
		if m.req == nil || m.w == nil || m.req.Context().Value(p09ctx{}) != i {
			r.Violate("monitor request", "%s: Monitor got another request", at)
		}
		if len(m.args) != len(sig.In) {
			r.Violate("monitor args", "%s: Monitor got %d args", at, len(m.args))
		} else {
			for k, t := range sig.In {
				x := reflect.ValueOf(m.args[k])
				if x.IsValid() && x.Type() == reflect.PtrTo(t) {
					x = x.Elem()
				} else {
					x = typed(t, m.args[k])
				}
				if diff := rt.DiffV(w, in[k], x); diff != "" {
					r.Violate("monitor args", "%s: Monitor's argument %d: %s", at, k, diff)
				}
			}
		}
		if way != wOK {
			// an own response: the results are not sent, nor specified here
		} else if len(m.rets) != len(sig.Out) {
			r.Violate("monitor rets", "%s: Monitor got %d results", at, len(m.rets))
		} else {
			for k, t := range sig.Out {
				if rets[k] == nil && m.rets[k] == nil {
					continue
				}
				if t.Implements(rt.TypeErr) {
					if !sameError(rets[k], m.rets[k]) {
						r.Violate("monitor rets "+w.String(), "%s: the service returned %T %v, Monitor got %T %v", at, rets[k], rets[k], m.rets[k], m.rets[k])
					}
					continue
				}
				if m.rets[k] != nil && !reflect.TypeOf(m.rets[k]).AssignableTo(t) {
					r.Violate("monitor rets "+w.String(), "%s: Monitor's result %d is a %T", at, k, m.rets[k])
				} else if diff := rt.DiffV(rt.Msgpack, typed(t, rets[k]), typed(t, m.rets[k])); diff != "" {
					r.Violate("monitor rets "+w.String(), "%s: Monitor's result %d: %s", at, k, diff)
				}
			}
		}
		if m.stats == nil || m.stats.Func != sig.Name || m.stats.Service != s.Name || m.stats.Package != s.Pkg {
			r.Violate("monitor stats", "%s: Monitor's stats are %+v", at, m.stats)
		}
		r.Count("monitor calls reconciled", 1)
	}
	// stats
	if mode == 3 {
		if len(stats) != 0 {
			r.Violate("stats count", "%s: stats without a stats context", at)
		}
		r.Case(at)
		return
	}
	if way == wUnknown {
		if len(stats) != 0 {
			r.Violate("stats count", "%s: %d stats for an unknown method", at, len(stats))
		}
		r.Case(at)
		return
	}
	last := interface{}(nil)
	if len(rets) > 0 {
		last = rets[len(rets)-1]
	}
	if mode == 2 {
		if way == wOK {
			labels := s.Pkg + "|" + s.Name + "|" + sig.Name
			d.observe("gotsrpc_service_size_bytes|"+labels+"|response", float64(len(a.body)))
			if len(sig.In) > 0 {
				d.observe("gotsrpc_service_size_bytes|"+labels+"|request", float64(len(body)))
			} else {
				d.observe("gotsrpc_service_size_bytes|"+labels+"|request", 0)
			}
			d.observe("gotsrpc_service_time_nanoseconds|"+labels+"|execution", float64(inner))
			d.observe("gotsrpc_service_time_nanoseconds|"+labels+"|marshalling", 0)
			d.observe("gotsrpc_service_time_nanoseconds|"+labels+"|unmarshalling", 0)
		} else {
			d.skip(s.Pkg + "|" + s.Name + "|" + sig.Name)
		}
		r.Case(at)
		return
	}
	if !executed {
		return // what is told of calls that did not execute is not specified
	}
	if len(stats) != 1 || stats[0] == nil {
		r.Violate("stats count", "%s: %d stats for one executed call", at, len(stats))
		return
	}
	st := stats[0]
	if _, again := d.kept[st]; again {
		r.Violate("stats shared", "%s: the stats are those of an earlier call", at)
	}
	d.kept[st] = *st
	if st.Package != s.Pkg || st.Service != s.Name || st.Func != sig.Name {
		r.Violate("stats names", "%s: stats name %s %s %s", at, st.Package, st.Service, st.Func)
	}
	if len(sig.In) > 0 && st.RequestSize != len(body) {
		r.Violate("request size "+w.String(), "%s: request size %d for a body of %d", at, st.RequestSize, len(body))
	}
	if way == wOK && st.ResponseSize != len(a.body) {
		r.Violate("response size "+w.String(), "%s: response size %d for a body of %d", at, st.ResponseSize, len(a.body))
	}
	if st.Execution < inner || st.Execution > wall || st.Marshalling < 0 || st.Unmarshalling < 0 || st.Marshalling+st.Unmarshalling+st.Execution > wall {
		r.Violate("durations", "%s: execution %v, unmarshalling %v, marshalling %v; the method took %v, all of it %v", at, st.Execution, st.Unmarshalling, st.Marshalling, inner, wall)
	}
	if way == wOK && (st.Marshalling == 0 || len(sig.In) > 0 && st.Unmarshalling == 0) {
		r.Count("zero durations", 1)
	}
	wantMsg, wantType, wantCode := "", "", 0
	if e, ok := last.(error); ok && way == wOK && !reflect.ValueOf(e).IsZero() {
		wantMsg, wantType, wantCode = e.Error(), fmt.Sprintf("%T", e), 1
		if c, ok := e.(errs.Coded); ok {
			wantCode = c.Code
		}
		r.Count("errors in stats", 1)
		r.See("error types in stats", wantType)
	}
	if way == wOK && (st.ErrorMessage != wantMsg || st.ErrorType != wantType || st.ErrorCode != wantCode) {
		r.Violate("stats error "+w.String(), "%s: stats have error %q %q %d, wanted %q %q %d", at, st.ErrorMessage, st.ErrorType, st.ErrorCode, wantMsg, wantType, wantCode)
	}
	if m := mons; len(m) == 1 && mode < 2 && m[0].stats != st {
		r.Violate("monitor stats", "%s: Monitor's stats are not the request's", at)
	}
	r.Count("stats reconciled", 1)
	r.Case(at + rt.ShowAll(ifaces(in)))
}

func sameError(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, ok1 := a.(error)
	y, ok2 := b.(error)
	if !ok1 || !ok2 || fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() && a == b {
		return true
	}
	if v := reflect.ValueOf(a); v.Kind() == reflect.Ptr {
		return false // a pointer is passed on as it is
	}
	return x.Error() == y.Error()
}

func (d *p09rig) observe(key string, v float64) {
	x := d.prom[key]
	if x == nil {
		x = &p09sum{}
		d.prom[key] = x
	}
	x.n++
	x.sum += v
}

// skip forgets a series some of whose observations are not specified.
func (d *p09rig) skip(labels string) {
	d.observe("skip|"+labels, 0)
}

// metrics compares the default registry with what was observed.
func (d *p09rig) metrics() {
	r := d.r
	fams, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		r.Violate("metrics", "gather: %v", err)
		return
	}
	got := map[string]*dto.Summary{}
	for _, f := range fams {
		for _, m := range f.Metric {
			l := map[string]string{}
			for _, p := range m.Label {
				l[p.GetName()] = p.GetValue()
			}
			got[f.GetName()+"|"+l["package"]+"|"+l["service"]+"|"+l["func"]+"|"+l["type"]] = m.Summary
		}
	}
	for key, want := range d.prom {
		labels := key
		if i := bytes.IndexByte([]byte(key), '|'); i > 0 {
			labels = key[i+1:]
		}
		if len(key) > 5 && key[:5] == "skip|" {
			continue
		}
		if d.prom["skip|"+labels[:lastBar(labels)]] != nil {
			continue
		}
		m := got[key]
		if m == nil {
			r.Violate("metrics", "no series %s", key)
			continue
		}
		if m.GetSampleCount() != want.n {
			r.Violate("metrics", "series %s has %d observations, wanted %d", key, m.GetSampleCount(), want.n)
		}
		if bytes.Contains([]byte(key), []byte("size_bytes")) {
			if m.GetSampleSum() != want.sum {
				r.Violate("metrics", "series %s sums to %v, wanted %v", key, m.GetSampleSum(), want.sum)
			}
		} else if m.GetSampleSum() < want.sum || m.GetSampleSum() > want.sum+60e9 {
			r.Violate("metrics", "series %s sums to %v, the executions took %v", key, m.GetSampleSum(), want.sum)
		}
		r.Count("prometheus series reconciled", 1)
		r.Case(key)
	}
}

func lastBar(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '|' {
			return i
		}
	}
	return len(s)
}

// gorpc: the GoRPC wrapper's metrics.
func (d *p09rig) gorpc() {
	r := d.r
	h := gotsprom.InstrumentGoRPCService()
	h2 := gotsprom.InstrumentGoRPCService()
	want := map[string]*p09sum{}
	rnd := rand.New(rand.NewSource(r.Seed))
	for i := 0; i < 200; i++ {
		st := &gotsrpc.CallStats{Package: fmt.Sprint("p", rnd.Intn(2)), Service: fmt.Sprint("s", rnd.Intn(2)), Func: fmt.Sprint("f", rnd.Intn(3)), Execution: time.Duration(rnd.Int63n(1e9))}
		[]gotsrpc.GoRPCCallStatsHandlerFun{h, h2}[i%2](st)
		k := st.Package + "|" + st.Service + "|" + st.Func
		if want[k] == nil {
			want[k] = &p09sum{}
		}
		want[k].n++
		want[k].sum += st.Execution.Seconds()
	}
	fams, _ := prometheus.DefaultGatherer.Gather()
	found := 0
	for _, f := range fams {
		if f.GetName() != "gorpc_service_time_seconds" {
			continue
		}
		for _, m := range f.Metric {
			l := map[string]string{}
			for _, p := range m.Label {
				l[p.GetName()] = p.GetValue()
			}
			x := want[l["package"]+"|"+l["service"]+"|"+l["func"]]
			if x == nil || l["type"] != "execution" {
				continue
			}
			found++
			if x.n != m.Summary.GetSampleCount() || x.sum-m.Summary.GetSampleSum() > 1e-6 || m.Summary.GetSampleSum()-x.sum > 1e-6 {
				r.Violate("gorpc metrics", "%v: %d observations of %v s in all, wanted %d of %v s", l, m.Summary.GetSampleCount(), m.Summary.GetSampleSum(), x.n, x.sum)
			}
			r.Count("prometheus series reconciled", 1)
		}
	}
	if found != len(want) {
		r.Violate("gorpc metrics", "%d of %d series", found, len(want))
	}
}
