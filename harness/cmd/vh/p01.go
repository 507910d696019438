package main

import (
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/http/httputil"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"verifharness/fx"
	"verifharness/rt"
)

func init() { checks["P01"] = p01 }

func p01(r *rt.Report) {
	r.Rule = "each case is one call of a generated client's method with fresh random arguments and results, observed at the service and at the caller; distinct by (service, method, encoding, arguments, results)"
	r.Assume = []string{
		"values equal up to what omitempty and json:\"-\" drop, times as instants (JSON: milliseconds)",
		"a value in an interface{} place arrives with its JSON-like meaning, not its Go type",
	}
	n := r.N(40, 1500)
	var wg sync.WaitGroup
	for _, s := range services {
		for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
			wg.Add(1)
			go func(s *rt.Service, w rt.Wire) {
				defer wg.Done()
				g := newRig(s, nil)
				defer g.close()
				g.gc.SetClientEncoding(enc(w))
				for mi, sig := range s.Sigs() {
					if !plain(s, sig, w) {
						continue
					}
					k := n
					if len(sig.In)+len(sig.Out) == 0 {
						k = 3
					}
					for i := 0; i < k; i++ {
						p01call(r, g.s, g.client, g.rc, w, sig, r.Seed*1e9+int64(mi)*1e6+int64(i)*2)
					}
					r.See("methods", s.Pkg+s.Name+sig.Name)
				}
			}(s, w)
		}
	}
	wg.Wait()
	p01clients(r)
	p01transports(r)
	p01broken(r)
	p01large(r)
	p01impl(r)
	p01zeroTime(r)
	r.AtLeast("executions observed", 2000)
}

// p01call makes one call and compares what was sent with what was observed.
func p01call(r *rt.Report, s *rt.Service, client interface{}, rc *recorder, w rt.Wire, sig rt.Sig, seed int64) {
	// what is sent is generated twice: nothing can be compared with itself
	mk := func() (in, out []reflect.Value) {
		g := gen(seed, w)
		return values(g, sig.In), values(g, sig.Out)
	}
	in, out := mk()
	wantIn, wantOut := mk()
	key := fmt.Sprintf("%s.%s:%s", s.Name, sig.Name, w)
	rc.take()
	rc.set(ifaces(out))
	rets, err := call(client, context.Background(), sig.Name, in)
	es := rc.take()
	show := func() string {
		return fmt.Sprintf("%s.%s over %s\n    sent args: %s\n    service returned: %s", s.Name, sig.Name, w, rt.ShowAll(ifaces(wantIn)), rt.ShowAll(ifaces(wantOut)))
	}
	if err != nil {
		r.Violate(key, "%s\n    client error: %v", show(), err)
		return
	}
	if len(es) != 1 || es[0].svc != s.Name || es[0].method != sig.Name {
		r.Violate(key, "%s\n    executed: %d times %+v", show(), len(es), es)
		return
	}
	for k, t := range sig.In {
		if d := rt.DiffV(w, wantIn[k], typed(t, es[0].args[k])); d != "" {
			r.Violate(key, "%s\n    argument %d arrived differently: %s", show(), k, d)
			return
		}
		if d := rt.DiffV(rt.Msgpack, wantIn[k], in[k]); d != "" {
			r.Violate(key, "%s\n    argument %d was changed in the caller's hands: %s", show(), k, d)
			return
		}
	}
	for k := range sig.Out {
		if d := rt.DiffV(w, wantOut[k], rets[k]); d != "" {
			r.Violate(key, "%s\n    result %d arrived differently: %s", show(), k, d)
			return
		}
	}
	r.Count("executions observed", 1)
	r.Count("values compared", len(sig.In)+len(sig.Out))
	r.Case(key + rt.ShowAll(ifaces(wantIn)) + rt.ShowAll(ifaces(wantOut)))
	if seed%1e6 < 2 && len(sig.In)+len(sig.Out) > 2 {
		r.Sample(map[string]string{"call": key, "args": rt.ShowAll(ifaces(wantIn)), "results": rt.ShowAll(ifaces(wantOut))})
	}
}

// p01clients drives the other constructors and endpoints.
func p01clients(r *rt.Report) {
	for si, s := range services {
		for k, ep := range []string{"", "/", "/a", "/a/b-c/d", "/ünï/x", s.Endpoint() + "/x"} {
			rc := &recorder{}
			srv := newServer(s.At(rc.hook, ep))
			c, gc := s.Client(srv.URL, ep, srv.Client())
			for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
				gc.SetClientEncoding(enc(w))
				for mi, sig := range s.Sigs() {
					if plain(s, sig, w) && (mi+k)%4 == 0 {
						p01call(r, s, c, rc, w, sig, r.Seed*1e9+int64(si)*1e7+int64(mi)*1e3+int64(k))
					}
				}
			}
			srv.Close()
			r.See("endpoints", ep)
		}
		rc := &recorder{}
		srv := newServer(s.Default(rc.hook))
		for k := 0; k < 2; k++ {
			c, gc := s.DefaultClient(srv.URL)
			if k == 1 {
				c, gc = s.PlainClient(srv.URL, s.Endpoint())
			}
			for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
				if w == rt.JSON {
					gc.SetClientEncoding(enc(w))
				}
				for mi, sig := range s.Sigs() {
					if plain(s, sig, w) && mi%6 == 0 {
						p01call(r, s, c, rc, w, sig, r.Seed*1e9+int64(si)*1e7+int64(mi)*1e3+int64(k)+500)
					}
				}
			}
		}
		srv.Close()
	}
}

// p01transports puts between client and proxy what is between them elsewhere.
func p01transports(r *rt.Report) {
	type wrap struct {
		name  string
		serve func(h http.Handler) (srv *httptest.Server, more func())
	}
	none := func() {}
	plainServer := func(h http.Handler) (*httptest.Server, func()) { return httptest.NewServer(h), none }
	for _, v := range []wrap{
		{"http/2", func(h http.Handler) (*httptest.Server, func()) {
			srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				r.See("protocols", req.Proto)
				h.ServeHTTP(w, req)
			}))
			srv.EnableHTTP2 = true
			srv.StartTLS()
			return srv, none
		}},
		{"compression", func(h http.Handler) (*httptest.Server, func()) {
			return plainServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, req)
				for k, v := range rec.Header() {
					w.Header()[k] = v
				}
				if !strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") {
					w.WriteHeader(rec.Code)
					_, _ = w.Write(rec.Body.Bytes())
					return
				}
				r.Count("replies compressed", 1)
				w.Header().Del("Content-Length")
				w.Header().Set("Content-Encoding", "gzip")
				w.WriteHeader(rec.Code)
				z := gzip.NewWriter(w)
				_, _ = z.Write(rec.Body.Bytes())
				_ = z.Close()
			}))
		}},
		{"a reverse proxy", func(h http.Handler) (*httptest.Server, func()) {
			back := httptest.NewServer(h)
			u, _ := url.Parse(back.URL)
			srv, _ := plainServer(httputil.NewSingleHostReverseProxy(u))
			return srv, back.Close
		}},
		{"a redirect", func(h http.Handler) (*httptest.Server, func()) {
			back := httptest.NewServer(h)
			srv, _ := plainServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				_, _ = io.Copy(io.Discard, req.Body)
				http.Redirect(w, req, back.URL+req.URL.RequestURI(), []int{307, 308}[len(req.URL.Path)%2])
			}))
			return srv, back.Close
		}},
		{"replies in pieces", func(h http.Handler) (*httptest.Server, func()) {
			return plainServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, req)
				for k, v := range rec.Header() {
					if k != "Content-Length" {
						w.Header()[k] = v
					}
				}
				w.WriteHeader(rec.Code)
				for b := rec.Body.Bytes(); len(b) > 0; {
					n := 1 + len(b)*2/3
					if n > len(b) {
						n = len(b)
					}
					_, _ = w.Write(b[:n])
					w.(http.Flusher).Flush()
					b = b[n:]
				}
			}))
		}},
		{"requests of unknown length", func(h http.Handler) (*httptest.Server, func()) {
			return plainServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				req.ContentLength = -1
				req.Body = io.NopCloser(iotest.OneByteReader(req.Body))
				h.ServeHTTP(w, req)
			}))
		}},
	} {
		for si, s := range services {
			rc := &recorder{}
			srv, more := v.serve(s.Default(rc.hook))
			c, gc := s.Client(srv.URL, s.Endpoint(), srv.Client())
			for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
				gc.SetClientEncoding(enc(w))
				for mi, sig := range s.Sigs() {
					if !plain(s, sig, w) || !r.Thorough && mi%3 != si%3 {
						continue
					}
					p01call(r, s, c, rc, w, sig, r.Seed*1e9+int64(si)*1e7+int64(mi)*1e3+700)
					r.Count("calls through "+v.name, 1)
				}
			}
			srv.Close()
			more()
		}
		r.AtLeast("calls through "+v.name, 50)
	}
}

// p01broken lets the connection or the reply fail after the method was
// executed: the caller is told and the method is not executed again.
func p01broken(r *rt.Report) {
	hijack := func(w http.ResponseWriter) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			_ = c.Close()
		}
	}
	part := func(n func(b []byte) int) func(w http.ResponseWriter, rec *httptest.ResponseRecorder) {
		return func(w http.ResponseWriter, rec *httptest.ResponseRecorder) {
			b := rec.Body.Bytes()
			w.Header().Set("Content-Type", rec.Header().Get("Content-Type"))
			w.Header().Set("Content-Length", fmt.Sprint(len(b)))
			_, _ = w.Write(b[:n(b)])
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		}
	}
	status := func(code int, header ...string) func(w http.ResponseWriter, rec *httptest.ResponseRecorder) {
		return func(w http.ResponseWriter, rec *httptest.ResponseRecorder) {
			w.Header().Set("Content-Type", rec.Header().Get("Content-Type"))
			for i := 0; i+1 < len(header); i += 2 {
				w.Header().Set(header[i], header[i+1])
			}
			w.WriteHeader(code)
			_, _ = w.Write(rec.Body.Bytes())
		}
	}
	for vi, v := range []struct {
		name string
		fail func(w http.ResponseWriter, rec *httptest.ResponseRecorder)
	}{
		{"closed without a reply", func(w http.ResponseWriter, _ *httptest.ResponseRecorder) { hijack(w) }},
		{"aborted without a reply", func(http.ResponseWriter, *httptest.ResponseRecorder) { panic(http.ErrAbortHandler) }},
		{"cut after the header", part(func(b []byte) int { return 0 })},
		{"cut in the middle", part(func(b []byte) int { return len(b) / 2 })},
		{"cut before the last byte", part(func(b []byte) int { return len(b) - 1 })},
		{"not HTTP", func(w http.ResponseWriter, _ *httptest.ResponseRecorder) {
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				_, _ = io.WriteString(c, "garbage\r\n\r\n")
				_ = c.Close()
			}
		}},
		{"500", status(500)}, {"502", status(502)}, {"504", status(504)},
		{"503 and retry", status(503, "Retry-After", "0")},
		{"429 and retry", status(429, "Retry-After", "0")},
		{"408 and close", status(408, "Connection", "close")},
		{"409", status(409)}, {"421", status(421)}, {"425", status(425)},
		{"401 and challenge", status(401, "WWW-Authenticate", `Basic realm="x"`)},
	} {
		for si, s := range services {
			rc := &recorder{}
			h := s.Default(rc.hook)
			var broken atomic.Bool
			srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, req)
				if broken.Load() {
					v.fail(w, rec)
					return
				}
				w.Header().Set("Content-Type", rec.Header().Get("Content-Type"))
				w.WriteHeader(rec.Code)
				_, _ = w.Write(rec.Body.Bytes())
			}))
			srv.Config.ErrorLog = discardLog
			srv.Start()
			c, gc := s.Client(srv.URL, s.Endpoint(), srv.Client())
			for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
				gc.SetClientEncoding(enc(w))
				for mi, sig := range s.Sigs() {
					if !plain(s, sig, w) || len(sig.Out) == 0 || !r.Thorough && mi%6 != (si+vi)%6 {
						continue
					}
					seed := r.Seed*1e9 + int64(si)*1e7 + int64(mi)*1e3 + 800
					if mi%2 == 0 { // a connection that was used before
						broken.Store(false)
						p01call(r, s, c, rc, w, sig, seed)
					}
					broken.Store(true)
					g := gen(seed+1, w)
					in := values(g, sig.In)
					rc.take()
					rc.set(ifaces(values(g, sig.Out)))
					key := fmt.Sprintf("%s.%s:%s, %s", s.Name, sig.Name, w, v.name)
					_, err := call(c, context.Background(), sig.Name, in)
					if es := rc.take(); len(es) != 1 {
						r.Violate(key, "executed %d times, client error %v", len(es), err)
					}
					if err == nil {
						r.Violate(key, "the reply failed and the caller was told nothing")
					}
					r.Count("calls whose reply failed", 1)
					r.See("failures of replies", v.name)
				}
			}
			srv.Close()
			if es := rc.take(); len(es) != 0 {
				r.Violate(s.Name+", "+v.name, "executed %d times more, later", len(es))
			}
		}
	}
	r.AtLeast("calls whose reply failed", 200)
}

// p01impl drives a service that is a struct.
func p01impl(r *rt.Report) {
	var got []string
	calls := 0
	impl := &fx.Impl{OnCall: func(name string, args ...interface{}) { got = append(got, fmt.Sprint(name, args)) }}
	srv := newServer(fx.NewDefaultImplGoTSRPCProxy(impl))
	defer srv.Close()
	c := fx.NewDefaultImplGoTSRPCClient(srv.URL)
	ctx := context.Background()
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		c.Client.SetClientEncoding(enc(w))
		for i := 0; i < 50; i++ {
			g := gen(r.Seed*1000+int64(i), w)
			a, b := int(int32(g.R.Uint32())), g.R.Intn(1000)
			got = nil
			sum, err := c.Add(ctx, a, b)
			if want := fmt.Sprint("Add", []interface{}{a, b}); err != nil || sum != a+b || len(got) != 1 || got[0] != want {
				r.Violate("Impl.Add", "Add(%d, %d) = %d, %v; executed %v", a, b, sum, err, got)
			}
			parts, sep := []string{g.Str(), g.Str(), g.Str()}, g.Str()
			got = nil
			out, n, err := c.Concat(ctx, parts, sep)
			if want := fmt.Sprint("Concat", []interface{}{parts, sep}); err != nil || out != parts[0]+sep+parts[1]+sep+parts[2] || n != 3 || len(got) != 1 || got[0] != want {
				r.Violate("Impl.Concat", "Concat(%q, %q) = %q, %d, %v; executed %v", parts, sep, out, n, err, got)
			}
			got = nil
			err = c.Fire(ctx, sep)
			if want := fmt.Sprint("Fire", []interface{}{sep}); err != nil || len(got) != 1 || got[0] != want {
				r.Violate("Impl.Fire", "Fire(%q): %v; executed %v", sep, err, got)
			}
			if calls += 3; impl.Calls != calls {
				r.Violate("Impl state", "after %d calls the service has counted %d: not this service was called", calls, impl.Calls)
				calls = impl.Calls
			}
			r.Count("executions observed", 3)
			r.Case(fmt.Sprint("impl", w, a, b, parts, sep))
		}
	}
}

// p01zeroTime probes a known finding.
func p01zeroTime(r *rt.Report) {
	g := newRig(service("Service"), nil)
	defer g.close()
	zero := time.Time{}
	in := fx.Stamped{PAt: &zero}
	g.rc.set([]interface{}{fx.Stamped{}})
	_, err := call(g.client, context.Background(), "Stamped", []reflect.Value{reflect.ValueOf(in)})
	es := g.rc.take()
	if err != nil || len(es) != 1 {
		r.Violate("Service.Stamped:msgpack", "pointer to the zero time: %v", err)
		return
	}
	if p := es[0].args[0].(fx.Stamped).PAt; p == nil {
		r.Violate("msgpack: pointer to the zero time", "a pointer to the zero time.Time in an argument arrived as nil")
	}
}
