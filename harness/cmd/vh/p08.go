package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	pkgerrors "github.com/pkg/errors"
	"github.com/ugorji/go/codec"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/errs"
	"verifharness/fx"
	"verifharness/rt"
)

func init() { checks["P08"] = p08 }

// p08 shares proxies, clients, headers, errors and codec handles among
// goroutines, in a race detector build.
func p08(r *rt.Report) {
	r.Rule = "each case is one call made while others were in flight; distinct by (service, method, encoding, arguments). Interleavings are told apart by the set of methods in flight when a method is entered"
	r.Assume = []string{"setters are not called concurrently with calls"}
	p08fresh(r)
	rounds := r.N(6, 60)
	for round := 0; round < rounds; round++ {
		p08round(r, r.Seed*1000+int64(round))
		p08mixed(r, r.Seed*1000+int64(round))
	}
	p08early(r, r.Seed)
	r.AtLeast("concurrent calls", 3000)
	r.AtLeast("services on HTTP/2", 2)
	r.AtLeast("calls answered before they were sent", 40)
	r.AtLeast("requests read after their answer", 20)
	r.AtLeast("error types first seen by many at once", 200)
	r.AtLeast("calls entered with others in flight", 1000)
}

// freshErr makes as many error types as it has arguments.
type freshErr[A, B, C any] struct{ Msg string }

func (e *freshErr[A, B, C]) Error() string { return e.Msg }

type fresh struct {
	mk func(msg string) error
	as func(err error, msg string) bool
}

func fresh0[A, B, C any]() fresh {
	return fresh{
		func(msg string) error { return &freshErr[A, B, C]{msg} },
		func(err error, msg string) bool {
			var e *freshErr[A, B, C]
			return errors.As(err, &e) && e.Msg == msg
		},
	}
}

func fresh1[A, B any]() []fresh {
	return []fresh{fresh0[A, B, int](), fresh0[A, B, int8](), fresh0[A, B, int16](), fresh0[A, B, int32](), fresh0[A, B, string](), fresh0[A, B, bool]()}
}

func fresh2[A any]() (fs []fresh) {
	for _, f := range [][]fresh{fresh1[A, int](), fresh1[A, int8](), fresh1[A, int16](), fresh1[A, int32](), fresh1[A, string](), fresh1[A, bool]()} {
		fs = append(fs, f...)
	}
	return fs
}

func fresh3() (fs []fresh) {
	for _, f := range [][]fresh{fresh2[int](), fresh2[int8](), fresh2[int16](), fresh2[int32](), fresh2[string](), fresh2[bool]()} {
		fs = append(fs, f...)
	}
	return fs
}

// inMemory is a transport with nothing in it that would order the calls.
type inMemory struct{ h http.Handler }

func (t inMemory) RoundTrip(req *http.Request) (*http.Response, error) {
	rec := httptest.NewRecorder()
	in := req.Clone(req.Context())
	in.RequestURI = req.URL.RequestURI()
	t.h.ServeHTTP(rec, in)
	return rec.Result(), nil
}

// p08fresh has goroutines meet types nothing has met before at the same moment
// and with next to no synchronisation that would hide a race.
func p08fresh(r *rt.Report) {
	all := fresh3()
	const workers = 6
	s := service("Service")
	h := s.Default(func(svc, method string, w http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
		var k int
		_, _ = fmt.Sscanf(args[0].(string), "%d ", &k)
		e := all[k].mk(args[0].(string))
		if k%2 == 1 {
			e = fmt.Errorf("over: %w", e)
		}
		return []interface{}{e}
	})
	for k := range all {
		start := make(chan struct{})
		bad := make([]string, workers)
		var wg sync.WaitGroup
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				c, _ := s.Client("http://memory", s.Endpoint(), &http.Client{Transport: inMemory{h}})
				msg := fmt.Sprintf("%d %d", k, g)
				<-start
				got, err := c.(fx.ServiceGoTSRPCClient).Err(context.Background(), msg)
				if err != nil || !all[k].as(got, msg) {
					bad[g] = fmt.Sprintf("%T %v, client error %v", got, got, err)
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g, b := range bad {
			if b != "" {
				r.Violate("fresh error types", "call %d of type %d got %s", g, k, b)
			}
		}
		r.Count("concurrent calls", workers)
		r.Count("error types first seen by many at once", 1)
		r.Case(fmt.Sprint("fresh ", k, r.Seed))
	}
}

// inflight watches which methods run at the same time.
type inflight struct {
	r   *rt.Report
	mu  sync.Mutex
	now map[string]int
}

func (f *inflight) enter(m string) func() {
	f.mu.Lock()
	f.now[m]++
	n := 0
	var set []string
	for k, c := range f.now {
		if c > 0 {
			n += c
			set = append(set, k)
		}
	}
	f.mu.Unlock()
	sort.Strings(set)
	if n > 1 {
		f.r.Count("calls entered with others in flight", 1)
		f.r.See("interleavings", strings.Join(set, " "))
	}
	return func() {
		f.mu.Lock()
		f.now[m]--
		f.mu.Unlock()
	}
}

func jitter(rnd func() int) {
	switch n := rnd() % 8; {
	case n < 3:
		runtime.Gosched()
	case n < 5:
		time.Sleep(time.Duration(n*50) * time.Microsecond)
	case n == 7:
		time.Sleep(time.Millisecond)
	}
}

var p08shared = []error{
	errors.New("shared sentinel"),
	pkgerrors.Wrap(&fx.StructErr{Msg: "shared", Code: 1, Map: map[string]string{"a": "b"}, List: []string{"x"}}, "wrapped"),
	fmt.Errorf("over: %w", errs.Kind("shared kind")),
	gotsrpc.NewError(fmt.Errorf("transported: %w", &errs.Causer{Op: "op", Inner: io.EOF})),
	gotsrpc.NewError(errors.New("transported leaf")),
	&errs.Rich{S: "rich", SS: []string{"a"}},
}

func p08round(r *rt.Report, seed int64) {
	var counter int64
	tick := func() int { return int(atomic.AddInt64(&counter, 1)*7919+seed) & 0x7fffffff }
	fl := &inflight{r: r, now: map[string]int{}}
	type shared struct {
		s        *rt.Service
		srv      *http.Server
		clients  [3]interface{}
		calls    map[string]*int64
		execs    map[string]*int64
		stats    sync.Map // method -> *int64
		byStats  map[string]*int64
		handler  http.Handler
		shutdown func()
	}
	var all []*shared
	headers := http.Header{"X-Shared": {"a", "b"}, "Accept": {"x"}}
	var monitored int64
	gotsrpc.Monitor = func(w http.ResponseWriter, req *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
		atomic.AddInt64(&monitored, 1)
		_ = fmt.Sprint(stats.Func, len(args), len(rets))
	}
	defer func() { gotsrpc.Monitor = gotsrpc.NoopMonitor }()
	var smu sync.Mutex
	var statErrors []string
	for _, s := range services {
		sh := &shared{s: s, calls: map[string]*int64{}, execs: map[string]*int64{}, byStats: map[string]*int64{}}
		for _, m := range s.Methods {
			sh.calls[m], sh.execs[m], sh.byStats[m] = new(int64), new(int64), new(int64)
		}
		s := s
		proxy := s.Default(func(svc, method string, w http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
			leave := fl.enter(svc + "." + method)
			defer leave()
			atomic.AddInt64(sh.execs[method], 1)
			jitter(tick)
			return p08answer(s, method, w, req, args)
		})
		inst := gotsrpc.InstrumentedService(proxy.ServeHTTP, func(st *gotsrpc.CallStats) {
			if c := sh.byStats[st.Func]; c != nil && st.Service == s.Name && st.Package == s.Pkg {
				atomic.AddInt64(c, 1)
			} else {
				r.Violate("stats", "stats of no method of %s: %+v", s.Name, *st)
			}
			if st.ErrorCode != 0 {
				smu.Lock()
				statErrors = append(statErrors, st.ErrorMessage)
				smu.Unlock()
			}
		})
		srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			jitter(tick)
			inst(w, req)
		}))
		srv.Config.ErrorLog = discardLog
		if seed%3 == 2 { // all calls on one connection
			srv.EnableHTTP2 = true
			srv.StartTLS()
			r.Count("services on HTTP/2", 1)
		} else {
			srv.Start()
		}
		srv.Client().Transport.(*http.Transport).MaxIdleConnsPerHost = 64
		for k := range sh.clients {
			c, gc := s.Client(srv.URL, s.Endpoint(), srv.Client())
			if k == 1 {
				gc.SetClientEncoding(enc(rt.JSON))
			}
			if k == 2 {
				c, gc = s.Client(srv.URL, s.Endpoint(), srv.Client())
			}
			gc.SetDefaultHeaders(headers)
			sh.clients[k] = c
		}
		sh.handler = inst
		sh.shutdown = srv.Close
		all = append(all, sh)
	}
	var wantErrors []string
	var emu sync.Mutex
	var failures int64
	start := make(chan struct{})
	var wg sync.WaitGroup
	workers := 16
	per := r.N(110, 300)
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed*100 + int64(g)))
			<-start
			for i := 0; i < per; i++ {
				sh := all[0]
				if i >= workers && rnd.Intn(3) == 0 {
					sh = all[rnd.Intn(len(all))]
				}
				s := sh.s
				m := s.Methods[rnd.Intn(len(s.Methods))]
				if i == 0 { // all at once on cold types
					m = s.Methods[int(seed)%len(s.Methods)]
				}
				if i == 1 || s.Name == "Service" && rnd.Intn(8) == 0 {
					m = []string{"Err", "ErrAnd", "HttpStatus", "HttpArgs", "Rec", "Any"}[rnd.Intn(6)]
					if s.Name != "Service" {
						continue
					}
				}
				sig := s.Sig(m)
				k := rnd.Intn(3)
				w := rt.Msgpack
				if k == 1 {
					w = rt.JSON
				}
				id := fmt.Sprintf("g%d-%d-%d", seed, g, i)
				if s.Name == "UnionService" && w == rt.JSON {
					continue
				}
				if sig.HasError {
					if w == rt.JSON || s.Name != "Service" || m != "Err" && m != "ErrAnd" {
						continue
					}
					atomic.AddInt64(sh.calls[m], 1)
					want := p08error(id)
					emu.Lock()
					wantErrors = append(wantErrors, want.Error())
					emu.Unlock()
					if bad := p08errcall(sh.clients[k].(fx.ServiceGoTSRPCClient), m, id, want); bad != "" {
						r.Violate("errors", "%s(%s): %s", m, id, bad)
					}
					r.Count("concurrent calls", 1)
					r.Case(id)
					continue
				}
				atomic.AddInt64(sh.calls[m], 1)
				if m == "HttpStatus" && s.Name == "Service" {
					status := []int{200, 201, 404, 500, 503}[rnd.Intn(5)]
					ret, err := sh.clients[k].(fx.ServiceGoTSRPCClient).HttpStatus(context.Background(), status, id)
					var he *gotsrpc.HTTPError
					switch {
					case status == 200 && (err != nil || ret != 200):
						r.Violate("status", "HttpStatus(200, %s) = %d, %v", id, ret, err)
					case status != 200 && (!errors.As(err, &he) || he.StatusCode != status || he.Body != id):
						r.Violate("status", "HttpStatus(%d, %s): client error %v", status, id, err)
					case status != 200:
						atomic.AddInt64(&failures, 1)
					}
					r.Count("concurrent calls", 1)
					r.Case(id)
					continue
				}
				vseed := seed*1e9 + int64(g)*1e6 + int64(i)
				mk := func() []reflect.Value {
					gn := gen(vseed, w)
					gn.Big = i%10 == 0
					return values(gn, sig.In)
				}
				in, want := mk(), mk()
				rets, err := call(sh.clients[k], context.Background(), m, in)
				if err != nil {
					r.Violate("call", "%s.%s over %s: client error %v", s.Name, m, w, err)
					continue
				}
				src := echoSources(sig)
				for o := range sig.Out {
					if src[o] < 0 {
						continue
					}
					if d := rt.DiffV(w, want[src[o]], rets[o]); d != "" {
						r.Violate("isolation", "%s.%s over %s with %s: result %d is not its own: %s", s.Name, m, w, rt.ShowAll(ifaces(want)), o, d)
					}
				}
				for o := range in {
					if d := rt.DiffV(rt.Msgpack, want[o], in[o]); d != "" {
						r.Violate("arguments changed", "%s.%s: %s", s.Name, m, d)
					}
				}
				r.Count("concurrent calls", 1)
				r.Case(id + rt.ShowAll(ifaces(want)))
				if rnd.Intn(6) == 0 {
					p08codec(r, rnd)
				}
				if rnd.Intn(10) == 0 { // bad requests in between
					a := put(sh.handler, "POST", s.Endpoint()+"/"+m+"x", ct(w), strings.NewReader("x"))
					if a.status != 404 {
						r.Violate("bad request", "status %d for an unknown method", a.status)
					}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	total := int64(0)
	for _, sh := range all {
		sh.shutdown()
		for _, m := range sh.s.Methods {
			total += *sh.calls[m]
			if *sh.calls[m] != *sh.execs[m] {
				r.Violate("exactly once", "%s.%s: called %d times, executed %d times", sh.s.Name, m, *sh.calls[m], *sh.execs[m])
			}
			if *sh.calls[m] != *sh.byStats[m] {
				r.Violate("stats", "%s.%s: called %d times, %d stats", sh.s.Name, m, *sh.calls[m], *sh.byStats[m])
			}
		}
	}
	if monitored != total {
		r.Violate("monitor", "%d calls, Monitor called %d times", total, monitored)
	}
	sort.Strings(wantErrors)
	sort.Strings(statErrors)
	if !reflect.DeepEqual(wantErrors, statErrors) {
		r.Violate("stats errors", "the stats' error messages are not those returned: %d returned, %d in stats", len(wantErrors), len(statErrors))
	}
	if !reflect.DeepEqual(headers, http.Header{"X-Shared": {"a", "b"}, "Accept": {"x"}}) {
		r.Violate("headers", "the shared default headers became %v", headers)
	}
	r.Count("rounds", 1)
}

// p08mixed has one client call a server that answers in both encodings.
func p08mixed(r *rt.Report, seed int64) {
	srv := newServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		var args []interface{}
		b, _ := io.ReadAll(req.Body)
		_ = codec.NewDecoderBytes(b, p08handle(req.Header.Get("Content-Type"))).Decode(&args)
		id, ctype, n := fmt.Sprint(args[0]), fmt.Sprint(args[1]), len(b)
		time.Sleep(time.Duration(n%3) * 100 * time.Microsecond)
		if ctype == "" {
			http.Error(w, id, http.StatusTeapot)
			return
		}
		var out []byte
		codec.NewEncoderBytes(&out, p08handle(ctype)).MustEncode([]interface{}{id, []string{ctype, id}})
		w.Header().Set("Content-Type", ctype)
		_, _ = w.Write(out)
	}))
	defer srv.Close()
	srv.Client().Transport.(*http.Transport).MaxIdleConnsPerHost = 64
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		c := gotsrpc.NewClientWithHttpClient(srv.Client())
		c.SetClientEncoding(enc(w))
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed*100 + int64(g)))
				for i := 0; i < 40; i++ {
					id := fmt.Sprintf("m%d-%s-%d-%d", seed, w, g, i) + strings.Repeat("x", rnd.Intn(4))
					ctype := []string{ctMsgpack, ctJSON, "application/json", ""}[rnd.Intn(4)]
					var got string
					var list []string
					err := c.Call(context.Background(), srv.URL, "/mixed", "Echo", []interface{}{id, ctype}, []interface{}{&got, &list})
					var he *gotsrpc.HTTPError
					switch {
					case ctype == "" && (!errors.As(err, &he) || he.Body != id+"\n"):
						r.Violate("mixed encodings", "the failure of call %s was reported as %v", id, err)
					case ctype != "" && err != nil:
						r.Violate("mixed encodings", "a client of %s got a reply in %s while others were in flight: %v", w, ctype, err)
					case ctype != "" && (got != id || len(list) != 2 || list[0] != ctype || list[1] != id):
						r.Violate("mixed encodings", "call %s (answered in %s) got %q, %q", id, ctype, got, list)
					}
					r.Count("concurrent calls answered in mixed encodings", 1)
					r.Case(id + ctype)
				}
			}(g)
		}
		wg.Wait()
	}
}

// p08early has a server answer before it reads the request: the transport goes
// on sending what belongs to a call that is long over, and whose arguments are
// its caller's again.
func p08early(r *rt.Report, seed int64) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Broken("%v", err)
		return
	}
	defer l.Close()
	var served int64
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				req, err := http.ReadRequest(bufio.NewReader(c))
				if err != nil {
					return
				}
				n := atomic.AddInt64(&served, 1) + seed
				_, _ = io.WriteString(c, "HTTP/1.1 503 Service Unavailable\r\nContent-Type: text/plain\r\nContent-Length: 4\r\n\r\nbusy")
				time.Sleep(time.Duration(n%5) * time.Millisecond)
				body, err := io.ReadAll(req.Body)
				if err != nil || int64(len(body)) != req.ContentLength {
					return // given up by the client
				}
				r.Count("requests read after their answer", 1)
				last := body[len(body)-1]
				if k := bytes.Count(body[16:], []byte{last}); k != len(body)-16 {
					r.Violate("sent after the call", "a request of %d bytes %q was changed while it was sent: only %d of them are its own", len(body), last, k)
				}
			}()
		}
	}()
	c := gotsrpc.NewClientWithHttpClient(&http.Client{Transport: &http.Transport{}})
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			arg := make([]byte, 3<<20+g<<18)
			for i := 0; i < 30; i++ {
				for k := range arg {
					arg[k] = byte('A' + (g*30+i)%180)
				}
				var reply string
				err := c.Call(context.Background(), "http://"+l.Addr().String(), "/early", "Call", []interface{}{arg}, []interface{}{&reply})
				var he *gotsrpc.HTTPError
				if err == nil || errors.As(err, &he) && (he.StatusCode != 503 || he.Body != "busy") {
					r.Violate("answered early", "a call answered with 503 busy returned %v", err)
				}
				if he != nil {
					r.Count("calls answered before they were sent", 1)
				}
				r.Case(fmt.Sprintf("early %d %d %d", seed, g, i))
			}
		}(g)
	}
	wg.Wait()
}

func p08handle(ctype string) codec.Handle {
	if strings.HasPrefix(ctype, "application/json") {
		return &codec.JsonHandle{}
	}
	h := &codec.MsgpackHandle{}
	h.RawToString = true
	return h
}

// echoSources tells for each result which argument it echoes, or -1.
func echoSources(sig rt.Sig) []int {
	used := map[int]bool{}
	src := make([]int, len(sig.Out))
	for o, t := range sig.Out {
		src[o] = -1
		for i, it := range sig.In {
			if it == t && !used[i] {
				src[o], used[i] = i, true
				break
			}
		}
	}
	return src
}

func p08answer(s *rt.Service, method string, w http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
	if s.Name == "Service" {
		switch method {
		case "Err":
			return []interface{}{p08error(args[0].(string))}
		case "ErrAnd":
			return []interface{}{args[0], p08error(args[0].(string))}
		case "HttpStatus":
			if st := args[0].(int); st != 200 {
				w.Header().Set("X-Id", args[1].(string))
				w.WriteHeader(st)
				_, _ = io.WriteString(w, args[1].(string))
			}
			return []interface{}{args[0]}
		}
	}
	sig := s.Sig(method)
	if sig.HTTP && (len(req.Header["X-Shared"]) != 2) {
		panic("default headers missing")
	}
	var rets []interface{}
	for _, i := range echoSources(sig) {
		if i < 0 {
			rets = append(rets, nil)
		} else {
			rets = append(rets, args[i])
		}
	}
	return rets
}

func p08error(id string) error {
	n := 0
	for _, c := range id {
		n += int(c)
	}
	switch n % 6 {
	case 0:
		return p08shared[n/6%len(p08shared)]
	case 1:
		return fmt.Errorf("%s: %w", id, p08shared[n/6%len(p08shared)])
	case 2:
		return &fx.StructErr{Msg: id, Code: n, Map: map[string]string{id: id}, List: []string{id}}
	case 3:
		return errs.Coded{Text: id, Code: n}
	case 4:
		return pkgerrors.Wrap(&errs.Causer{Op: id, At: n, Inner: io.EOF}, "wrap")
	default:
		return errors.New(id)
	}
}

func p08errcall(c fx.ServiceGoTSRPCClient, m, id string, want error) string {
	var got, cerr error
	if m == "Err" {
		got, cerr = c.Err(context.Background(), id)
	} else {
		var ret string
		ret, got, cerr = c.ErrAnd(context.Background(), id)
		if cerr == nil && ret != id {
			return fmt.Sprintf("result %q", ret)
		}
	}
	if cerr != nil {
		return "client error " + cerr.Error()
	}
	if got == nil || got.Error() != want.Error() {
		return fmt.Sprintf("got %v, want %v", got, want)
	}
	var a, b *fx.StructErr
	if errors.As(want, &a) && (!errors.As(got, &b) || !reflect.DeepEqual(a, b)) {
		return fmt.Sprintf("got %+v, want %+v", b, a)
	}
	var x, y errs.Coded
	if errors.As(want, &x) && (!errors.As(got, &y) || x != y) {
		return fmt.Sprintf("got %+v, want %+v", y, x)
	}
	if errors.Is(want, p08shared[0]) != errors.Is(got, p08shared[0]) {
		return "identity"
	}
	return ""
}

func p08codec(r *rt.Report, rnd *rand.Rand) {
	x := fx.Leaf{A: fmt.Sprint(rnd.Int63())}
	var b []byte
	if err := gotsrpc.NewMSGPackEncoderBytes(&b).Encode(x); err != nil {
		r.Violate("codec", "encoding: %v", err)
	}
	var y fx.Leaf
	if err := gotsrpc.NewMSGPackDecoderBytes(bytes.Clone(b)).Decode(&y); err != nil || y.A != x.A {
		r.Violate("codec", "%q decoded as %q (%v)", x.A, y.A, err)
	}
}
