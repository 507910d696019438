package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/valyala/gorpc"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/fx"
	"verifharness/rt"
)

func init() { checks["P12"] = p12 }

// p12 drives GoRPC servers and clients and checks the log of executions, stats
// and client results against each other.
func p12(r *rt.Report) {
	r.Rule = "each case is one call of a generated GoRPC client, observed at the service, at the stats handler and at the caller; distinct by (service, transport, method, arguments, results, way of calling)"
	r.Assume = []string{"values gob can transport", "nil and empty, and pointers to zero and nil, are the same to gob"}
	gorpc.SetErrorLogger(gorpc.NilErrorLogger)
	srvTLS, cliTLS, err := selfSigned()
	if err != nil {
		r.Broken("certificate: %v", err)
		return
	}
	for si, s := range services {
		if s.RPCServer == nil {
			continue
		}
		for ti := 0; ti < 2; ti++ {
			var st, ct *tls.Config
			if ti == 1 {
				st, ct = srvTLS, cliTLS
			}
			g, err := newRPCRig(r, s, st, ct)
			if err != nil {
				r.Broken("server: %v", err)
				return
			}
			seed := r.Seed*1e9 + int64(si*10+ti)*1e6
			g.sequential(seed)
			g.large()
			g.concurrent(seed)
			g.panics()
			g.stopped(seed)
		}
	}
	p12impl(r)
	p12unreachable(r)
	r.AtLeast("calls compared", 1500)
	r.AtLeast("stats reconciled", 1500)
	r.AtLeast("calls entered with others in flight", 300)
	r.AtLeast("calls failed by a stop", 20)
	r.AtLeast("large values compared", 15)
}

func selfSigned() (srv, cli *tls.Config, err error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, nil, err
	}
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().AddDate(10, 0, 0),
		DNSNames: []string{"verif.test"}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, key.Public(), key)
	if err != nil {
		return nil, nil, err
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		return nil, nil, err
	}
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	srv = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	cli = &tls.Config{RootCAs: pool, ServerName: "verif.test"}
	return srv, cli, nil
}

// p12impl calls a service that is a struct and has state: it has to be this one that is called.
func p12impl(r *rt.Report) {
	var mu sync.Mutex
	var got []string
	impl := &fx.Impl{}
	impl.OnCall = func(name string, args ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		got = append(got, fmt.Sprint(name, args))
	}
	var srv *fx.ImplGoRPCProxy
	var addr string
	for try := 0; ; try++ {
		addr = freeAddr()
		srv = fx.NewImplGoRPCProxy(addr, impl, nil)
		if err := srv.Start(); err == nil {
			break
		} else if try == 10 {
			r.Broken("server: %v", err)
			return
		}
	}
	defer srv.Stop()
	c := fx.NewImplGoRPCClient(addr, nil)
	c.Start()
	defer c.Stop()
	calls := 0
	executed := func(want string, args ...interface{}) bool {
		mu.Lock()
		defer mu.Unlock()
		calls++
		ok := len(got) == 1 && got[0] == fmt.Sprint(want, args) && impl.Calls == calls
		got = nil
		return ok
	}
	for i := 0; i < r.N(60, 2000); i++ {
		g := gen(r.Seed*1000+int64(i), rt.Gob)
		a, b := int(int32(g.R.Uint32())), g.R.Intn(1000)
		sum, err := c.Add(a, b)
		if !executed("Add", a, b) || err != nil || sum != a+b {
			r.Violate("Impl.Add", "Add(%d, %d) = %d, %v; of %d calls the service has counted %d", a, b, sum, err, calls, impl.Calls)
		}
		parts, sep := []string{g.Str(), g.Str(), g.Str()}, g.Str()
		out, n, err := c.Concat(parts, sep)
		if !executed("Concat", parts, sep) || err != nil || out != strings.Join(parts, sep) || n != 3 {
			r.Violate("Impl.Concat", "Concat(%q, %q) = %q, %d, %v; of %d calls the service has counted %d", parts, sep, out, n, err, calls, impl.Calls)
		}
		err = c.Fire(sep)
		if !executed("Fire", sep) || err != nil {
			r.Violate("Impl.Fire", "Fire(%q): %v; of %d calls the service has counted %d", sep, err, calls, impl.Calls)
		}
		r.Count("calls of a struct compared", 3)
		r.Case(fmt.Sprint("impl", a, b, parts, sep))
	}
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "127.0.0.1:0"
	}
	defer l.Close()
	return l.Addr().String()
}

type rpcRig struct {
	r      *rt.Report
	s      *rt.Service
	tls    bool
	addr   string
	srv    rt.RPCServer
	client rt.RPCClient

	mu    sync.Mutex
	on    rt.Hook
	stats []*gotsrpc.CallStats
	execs map[string]int
}

func newRPCRig(r *rt.Report, s *rt.Service, st, ct *tls.Config) (g *rpcRig, err error) {
	for try := 0; try < 10; try++ {
		g = &rpcRig{r: r, s: s, tls: st != nil, addr: freeAddr(), execs: map[string]int{}}
		g.srv = s.RPCServer(g.addr, g.hook, st)
		g.srv.SetCallStatsHandler(func(st *gotsrpc.CallStats) {
			g.mu.Lock()
			g.stats = append(g.stats, st)
			g.mu.Unlock()
		})
		if err = g.srv.Start(); err == nil {
			break
		}
	}
	if err != nil {
		return nil, err
	}
	g.client = s.RPCClient(g.addr, ct)
	g.client.Start()
	return g, nil
}

func (g *rpcRig) hook(svc, method string, w http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
	g.mu.Lock()
	on := g.on
	g.execs[method]++
	g.mu.Unlock()
	if on == nil {
		return nil
	}
	return on(svc, method, w, req, args)
}

func (g *rpcRig) set(h rt.Hook) {
	g.mu.Lock()
	g.on = h
	g.mu.Unlock()
}

func (g *rpcRig) take() (stats []*gotsrpc.CallStats, execs map[string]int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	stats, execs = g.stats, g.execs
	g.stats, g.execs = nil, map[string]int{}
	return
}

// rpcCall calls a method of the client; GoRPC clients take no context.
func rpcCall(client interface{}, method string, args []reflect.Value) (rets []reflect.Value, clientErr error) {
	out := reflect.ValueOf(client).MethodByName(method).Call(args)
	last := out[len(out)-1]
	if !last.IsNil() {
		clientErr = last.Interface().(error)
	}
	return out[:len(out)-1], clientErr
}

func (g *rpcRig) name(sig rt.Sig) string {
	return fmt.Sprintf("%s.%s (tls %v)", g.s.Name, sig.Name, g.tls)
}

func (g *rpcRig) checkStats(at string, stats []*gotsrpc.CallStats, want map[string]int, nap time.Duration) {
	r := g.r
	got := map[string]int{}
	for _, st := range stats {
		if st == nil {
			r.Violate("gorpc stats", "%s: nil stats", at)
			continue
		}
		if st.Package != g.s.Pkg || st.Service != g.s.Name {
			r.Violate("gorpc stats", "%s: stats name %q %q", at, st.Package, st.Service)
		}
		m := strings.TrimSuffix(strings.TrimPrefix(st.Func, g.s.Name), "Request")
		if st.Func != g.s.Name+m+"Request" {
			r.Violate("gorpc stats", "%s: stats name the func %q", at, st.Func)
		}
		if st.Execution < nap {
			r.Violate("gorpc stats", "%s: execution took %v, stats say %v", at, nap, st.Execution)
		}
		got[m]++
	}
	if !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
		r.Violate("gorpc stats", "%s: stats of %v for executions of %v", at, got, want)
	}
	r.Count("stats reconciled", len(stats))
}

// sequential: faithful values, one at a time.
func (g *rpcRig) sequential(seed int64) {
	r, n := g.r, g.r.N(6, 200)
	for mi, sig := range g.s.Sigs() {
		for i := 0; i < n; i++ {
			sd := seed + int64(mi)*1000 + int64(i)
			mk := func() (in, out []reflect.Value) {
				gg := gen(sd, rt.Gob)
				return values(gg, sig.In), values(gg, sig.Out)
			}
			in, out := mk()
			wantIn, wantOut := mk()
			var args [][]interface{}
			nap := time.Duration(0)
			if i == 0 {
				nap = 3 * time.Millisecond
			}
			g.set(func(svc, method string, w http.ResponseWriter, req *http.Request, a []interface{}) []interface{} {
				g.mu.Lock()
				args = append(args, a)
				g.mu.Unlock()
				time.Sleep(nap)
				return ifaces(out)
			})
			g.take()
			rets, err := rpcCall(g.client, sig.Name, in)
			stats, execs := g.take()
			at := fmt.Sprintf("%s\n    args: %s\n    results: %s", g.name(sig), rt.ShowAll(ifaces(wantIn)), rt.ShowAll(ifaces(wantOut)))
			if err != nil {
				r.Violate("gorpc call", "%s: %v", at, err)
				continue
			}
			if len(execs) != 1 || execs[sig.Name] != 1 || len(args) != 1 {
				r.Violate("gorpc executions", "%s: executed %v", at, execs)
				continue
			}
			for k, t := range sig.In {
				if d := rt.DiffV(rt.Gob, wantIn[k], typed(t, args[0][k])); d != "" {
					r.Violate("gorpc values", "%s: argument %d: %s", at, k, d)
				}
			}
			for k := range sig.Out {
				if d := rt.DiffV(rt.Gob, wantOut[k], rets[k]); d != "" {
					r.Violate("gorpc values", "%s: result %d: %s", at, k, d)
				}
			}
			g.checkStats(at, stats, map[string]int{sig.Name: 1}, nap)
			r.Count("calls compared", 1)
			r.Case(at)
			r.See("methods", g.s.Pkg+g.s.Name+sig.Name)
		}
	}
}

// concurrent: goroutines share a client; a method's results are a function of
// its arguments, so that answers of others show.
func (g *rpcRig) concurrent(seed int64) {
	r := g.r
	sigs := g.s.Sigs()
	results := func(sig rt.Sig, args []interface{}) []reflect.Value {
		var b strings.Builder
		b.WriteString(sig.Name)
		for i, a := range args {
			canon(typed(sig.In[i], a), &b)
		}
		h := int64(0)
		for _, c := range b.String() {
			h = h*31 + int64(c)
		}
		return values(gen(h, rt.Gob), sig.Out)
	}
	var now int32
	g.take()
	g.set(func(svc, method string, w http.ResponseWriter, req *http.Request, a []interface{}) []interface{} {
		if atomic.AddInt32(&now, 1) > 1 {
			r.Count("calls entered with others in flight", 1)
		}
		defer atomic.AddInt32(&now, -1)
		time.Sleep(time.Duration(mrand.Intn(800)) * time.Microsecond)
		return ifaces(results(g.s.Sig(method), a))
	})
	var wg sync.WaitGroup
	var mu sync.Mutex
	made := map[string]int{}
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			rnd := mrand.New(mrand.NewSource(seed + int64(k)))
			for i := 0; i < r.N(25, 600); i++ {
				sig := sigs[rnd.Intn(len(sigs))]
				gg := gen(rnd.Int63(), rt.Gob)
				gg.Big = false
				in := values(gg, sig.In)
				want := results(sig, ifaces(in))
				rets, err := rpcCall(g.client, sig.Name, in)
				mu.Lock()
				made[sig.Name]++
				mu.Unlock()
				at := fmt.Sprintf("%s, concurrently, args %s", g.name(sig), rt.ShowAll(ifaces(in)))
				if err != nil {
					r.Violate("gorpc call", "%s: %v", at, err)
					continue
				}
				for j := range want {
					if d := rt.DiffV(rt.Gob, want[j], rets[j]); d != "" {
						r.Violate("gorpc isolation", "%s: result %d: %s", at, j, d)
					}
				}
				r.Count("calls compared", 1)
				r.Case(at)
			}
		}(k)
	}
	wg.Wait()
	stats, execs := g.take()
	if !reflect.DeepEqual(execs, made) {
		r.Violate("gorpc executions", "%s: %v calls made, %v executed", g.s.Name, made, execs)
	}
	g.checkStats(g.s.Name+" concurrently", stats, made, 0)
}

// canon writes a value the way gob tells values apart: empties are nil, and so
// are pointers to zero.
func canon(v reflect.Value, b *strings.Builder) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			var x, z strings.Builder
			canon(v.Elem(), &x)
			canon(reflect.Zero(v.Type().Elem()), &z)
			if x.String() != z.String() {
				b.WriteString("&" + x.String())
				return
			}
		}
		b.WriteString("nil")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canon(v.Index(i), b)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var x strings.Builder
			canon(k, &x)
			x.WriteString(":")
			canon(v.MapIndex(k), &x)
			es = append(es, x.String())
		}
		sort.Strings(es)
		b.WriteString("{" + strings.Join(es, ",") + "}")
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			fmt.Fprint(b, t.UnixNano())
			return
		}
		b.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				canon(v.Field(i), b)
				b.WriteString(";")
			}
		}
		b.WriteString(")")
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float()+0) // no negative zero
	default:
		fmt.Fprintf(b, "%#v", v.Interface())
	}
}

// panics of a service method fail their call only.
func (g *rpcRig) panics() {
	r := g.r
	for _, sig := range g.s.Sigs() {
		if len(sig.Out) == 0 {
			continue
		}
		g.set(func(svc, method string, w http.ResponseWriter, req *http.Request, a []interface{}) []interface{} {
			panic("on purpose")
		})
		gg := gen(1, rt.Gob)
		rets, err := rpcCall(g.client, sig.Name, values(gg, sig.In))
		if err == nil {
			r.Violate("gorpc panic", "%s: a method that panicked reported no client error and %s", g.name(sig), rt.ShowAll(ifaces(rets)))
		}
		g.zero(g.name(sig)+" after a panic", rets)
		out := values(gg, sig.Out)
		g.set(func(svc, method string, w http.ResponseWriter, req *http.Request, a []interface{}) []interface{} {
			return ifaces(out)
		})
		rets, err = rpcCall(g.client, sig.Name, values(gg, sig.In))
		if err != nil {
			r.Violate("gorpc panic", "%s: after a panic: %v", g.name(sig), err)
			continue
		}
		for j := range out {
			if d := rt.DiffV(rt.Gob, out[j], rets[j]); d != "" {
				r.Violate("gorpc panic", "%s: after a panic: %s", g.name(sig), d)
			}
		}
		r.Count("calls that panicked", 1)
		r.Case("panic " + g.name(sig))
	}
	g.take()
}

func (g *rpcRig) zero(at string, rets []reflect.Value) {
	for i, v := range rets {
		if !v.IsZero() {
			g.r.Violate("gorpc zero", "%s: client error and result %d is %s", at, i, rt.Show(v))
		}
	}
}

// stopped: the server stops under calls in flight.
func (g *rpcRig) stopped(seed int64) {
	r := g.r
	sigs := g.s.Sigs()
	g.take()
	gate := make(chan struct{})
	entered := make(chan struct{}, 1000)
	g.set(func(svc, method string, w http.ResponseWriter, req *http.Request, a []interface{}) []interface{} {
		entered <- struct{}{}
		<-gate
		return ifaces(values(gen(7, rt.Gob), g.s.Sig(method).Out))
	})
	setTimeout(g.client, 4*time.Second) // read when a call is made
	type done struct {
		sig  rt.Sig
		rets []reflect.Value
		err  error
	}
	const n = 16
	dones := make(chan done, n)
	for k := 0; k < n; k++ {
		sig := sigs[int(seed/7+int64(k))%len(sigs)]
		in := values(gen(seed+int64(k), rt.Gob), sig.In)
		go func() {
			rets, err := rpcCall(g.client, sig.Name, in)
			dones <- done{sig, rets, err}
		}()
	}
	for i := 0; i < n/2; i++ {
		select {
		case <-entered:
		case <-time.After(20 * time.Second):
		}
	}
	stopped := make(chan struct{})
	go func() { g.srv.Stop(); close(stopped) }()
	time.Sleep(30 * time.Millisecond)
	close(gate)
	for i := 0; i < n; i++ {
		d := <-dones
		at := g.name(d.sig) + " when the server stopped"
		if d.err == nil {
			want := values(gen(7, rt.Gob), d.sig.Out)
			for j := range want {
				if x := rt.DiffV(rt.Gob, want[j], d.rets[j]); x != "" {
					r.Violate("gorpc stop", "%s: no client error, and result %d: %s", at, j, x)
				}
			}
		} else {
			g.zero(at, d.rets)
			r.Count("calls failed by a stop", 1)
		}
		r.Case(fmt.Sprint(at, i))
	}
	select {
	case <-stopped:
	case <-time.After(20 * time.Second):
		r.Violate("gorpc stop", "%s: Stop did not return", g.s.Name)
	}
	if _, execs := g.take(); sum(execs) > n {
		r.Violate("gorpc stop", "%s: %d calls executed %v", g.s.Name, n, execs)
	}
	// and calls made afterwards
	setTimeout(g.client, 150*time.Millisecond)
	var wg sync.WaitGroup
	for _, sig := range sigs {
		wg.Add(1)
		go func(sig rt.Sig) {
			defer wg.Done()
			rets, err := rpcCall(g.client, sig.Name, values(gen(seed, rt.Gob), sig.In))
			if err == nil && len(sig.Out) > 0 {
				r.Violate("gorpc stop", "%s: no client error after the server stopped, and %s", g.name(sig), rt.ShowAll(ifaces(rets)))
			}
			g.zero(g.name(sig)+" after a stop", rets)
			r.Count("calls failed by a stop", 1)
			r.Case("after " + g.name(sig))
		}(sig)
	}
	wg.Wait()
	if _, execs := g.take(); len(execs) > 0 {
		r.Violate("gorpc stop", "%s: executed %v after the stop", g.s.Name, execs)
	}
	g.client.Stop()
}

func sum(m map[string]int) (n int) {
	for _, c := range m {
		n += c
	}
	return
}

func setTimeout(client interface{}, d time.Duration) {
	reflect.ValueOf(client).Elem().FieldByName("Client").Interface().(*gorpc.Client).RequestTimeout = d
}

// p12unreachable calls where nobody listens.
func p12unreachable(r *rt.Report) {
	for _, s := range services {
		if s.RPCClient == nil {
			continue
		}
		c := s.RPCClient(freeAddr(), nil)
		setTimeout(c, 150*time.Millisecond)
		c.Start()
		g := &rpcRig{r: r, s: s}
		var wg sync.WaitGroup
		for _, sig := range s.Sigs() {
			wg.Add(1)
			go func(sig rt.Sig) {
				defer wg.Done()
				rets, err := rpcCall(c, sig.Name, values(gen(3, rt.Gob), sig.In))
				if err == nil {
					r.Violate("gorpc unreachable", "%s: no client error though nobody listens, and %s", g.name(sig), rt.ShowAll(ifaces(rets)))
				}
				g.zero(g.name(sig)+" unreachable", rets)
				r.Count("calls failed by nobody listening", 1)
				r.Case("unreachable " + g.name(sig))
			}(sig)
		}
		wg.Wait()
		c.Stop()
	}
}
