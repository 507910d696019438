package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/valyala/gorpc"
	"verifharness/rt"
)

func init() { checks["P14"] = p14 }

// p14 watches bodies, connections and goroutines.
func p14(r *rt.Report) {
	r.Rule = "each case is one request, response or call whose body, connection and goroutines were watched; distinct by (service, encoding, situation, size, position in the connection's history)"
	r.Assume = []string{"net/http announces the end of a connection itself when a reply of more than 2 KB starts before more than 256 KB of the request were read; such pairs are not used"}
	gorpc.SetErrorLogger(gorpc.NilErrorLogger)
	base := ours()
	var wg sync.WaitGroup
	for si, s := range services {
		for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
			wg.Add(1)
			go func(s *rt.Service, w rt.Wire, seed int64) {
				defer wg.Done()
				p14bodies(r, s, w, seed)
				p14connection(r, s, w, seed)
				p14closes(r, s, w, seed)
			}(s, w, r.Seed*1e6+int64(si))
		}
	}
	wg.Wait()
	p14reuse(r)
	p14cancelled(r)
	p14rpc(r)
	var left []string
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		if left = ours(); len(left) <= len(base) || time.Now().After(end) {
			break
		}
	}
	if len(left) > len(base) {
		r.Violate("goroutines left", "%d goroutines of gotsrpc, its transports or connections are left after everything was closed, for example:\n%s", len(left)-len(base), left[len(left)-1])
	}
	r.Count("goroutine censuses", 1)
	r.AtLeast("bodies drained", 1500)
	r.AtLeast("requests answered on shared connections", 1500)
	r.AtLeast("response bodies closed", 3000)
	r.AtLeast("calls cancelled at random", 50)
	r.AtLeast("gorpc connections ended", 8)
}

// ours lists the goroutines that run gotsrpc's code, its transports or connections.
func ours() (gs []string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 { // this one
			continue
		}
		for _, f := range []string{"foomo/gotsrpc", "_gen.go:", "persistConn", "net/http.(*conn)", "valyala/gorpc"} {
			if strings.Contains(g, f) {
				gs = append(gs, g)
				break
			}
		}
	}
	return
}

// situation is a request whose reading may stop early.
type situation struct {
	name    string
	path    string
	body    []byte
	rets    []reflect.Value
	sig     rt.Sig
	status  int  // expected
	handled bool // the method answers by itself
	id      string
}

var junk = func() []byte {
	pattern := "[{\"x\": 1}, \x00\x91\xc1\xff ]"
	b := make([]byte, 1<<20)
	for i := range b {
		b[i] = pattern[i%len(pattern)]
	}
	return b
}()

// p14situation makes a request of a kind with up to a megabyte behind what gets read.
func p14situation(s *rt.Service, w rt.Wire, t *tapper, rnd *rand.Rand, kind int) (q situation, ok bool) {
	size := []int{0, 1, 17, 4096, 300_000, 1 << 20}[rnd.Intn(6)]
	if rnd.Intn(2) == 0 && size > 0 {
		size = rnd.Intn(size) + 1
	}
	tail := junk[:size]
	sigs := s.Sigs()
	g := gen(rnd.Int63(), w)
	g.Big = false
	switch kind {
	case 0, 1: // a good call, with something behind its arguments
		q.sig = sigs[rnd.Intn(len(sigs))]
		if !plain(s, q.sig, w) || q.sig.Name == "HttpStatus" {
			return q, false
		}
		b, err := t.body(q.sig.Name, values(g, q.sig.In))
		if err != nil {
			return q, false
		}
		q.rets = values(g, q.sig.Out)
		q.name, q.path, q.status = "good call", s.Endpoint()+"/"+q.sig.Name, 200
		if kind == 1 && len(fmt.Sprint(ifaces(q.rets)...)) < 300 {
			q.name += " with more behind"
			b = append(b, tail...)
		}
		q.body = b
	case 2:
		q.name, q.path, q.status, q.body = "unknown method", s.Endpoint()+"/"+g.Str()+"Nope", 404, tail
		q.path = "/" + strings.Trim(strings.Map(func(r rune) rune {
			if r < 'a' || r > 'z' {
				return 'x'
			}
			return r
		}, q.path), "/")
	case 3:
		q.sig = sigs[rnd.Intn(len(sigs))]
		if len(q.sig.In) == 0 {
			return q, false
		}
		q.name, q.path, q.status = "undecodable", s.Endpoint()+"/"+q.sig.Name, 400
		q.body = append([]byte{map[rt.Wire]byte{rt.Msgpack: 0xc1, rt.JSON: '}'}[w]}, tail...)
	case 4:
		q.sig = sigs[rnd.Intn(len(sigs))]
		if len(q.sig.In) == 0 {
			return q, false
		}
		b, err := t.body(q.sig.Name, values(g, q.sig.In))
		if err != nil || len(b) < 2 {
			return q, false
		}
		q.name, q.path, q.status = "truncated", s.Endpoint()+"/"+q.sig.Name, 400
		q.body = b[:1+rnd.Intn(len(b)-1)]
	case 5:
		if s.Name != "Service" {
			return q, false
		}
		q.sig = s.Sig("HttpStatus")
		st := []int{201, 204, 304, 302, 404, 418, 500, 503}[rnd.Intn(8)]
		q.id = fmt.Sprint("id", rnd.Int63())
		b, err := t.body("HttpStatus", []reflect.Value{reflect.ValueOf(st), reflect.ValueOf(q.id)})
		if err != nil {
			return q, false
		}
		q.name, q.path, q.status, q.handled = fmt.Sprint("own status ", st), s.Endpoint()+"/HttpStatus", st, true
		q.body = append(b, tail...)
	}
	return q, true
}

// p14answer sets what the service does with the situation.
func p14answer(q situation) rt.Hook {
	return func(svc, method string, w http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
		if q.handled {
			w.Header().Set("X-Id", q.id)
			w.WriteHeader(q.status)
			if q.status != 204 && q.status != 304 {
				_, _ = io.WriteString(w, q.id)
			}
			return []interface{}{0}
		}
		return ifaces(q.rets)
	}
}

// switchable is a hook that can be exchanged between requests.
type switchable struct{ h atomic.Value }

func (s *switchable) hook(svc, method string, w http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
	return s.h.Load().(rt.Hook)(svc, method, w, req, args)
}

// spyBody tells how far a body was read.
type spyBody struct {
	r   io.Reader
	rnd *rand.Rand
	n   int
	eof bool
}

func (b *spyBody) Read(p []byte) (int, error) {
	if len(p) > 1 && b.rnd.Intn(3) == 0 {
		p = p[:1+b.rnd.Intn(len(p))]
	}
	n, err := b.r.Read(p)
	b.n += n
	if err == io.EOF {
		b.eof = true
	}
	return n, err
}

func (b *spyBody) Close() error { return nil }

func p14bodies(r *rt.Report, s *rt.Service, w rt.Wire, seed int64) {
	rnd := rand.New(rand.NewSource(seed))
	t := newTapper(s, w)
	sw := &switchable{}
	h := s.Default(sw.hook)
	for i := 0; i < r.N(250, 3000); i++ {
		q, ok := p14situation(s, w, t, rnd, rnd.Intn(6))
		if !ok {
			continue
		}
		sw.h.Store(rt.Hook(p14answer(q)))
		spy := &spyBody{r: bytes.NewReader(q.body), rnd: rnd}
		req := httptest.NewRequest(http.MethodPost, "/", spy)
		req.URL.Path, req.ContentLength = q.path, int64(len(q.body))
		req.Header.Set("Content-Type", ct(w))
		a := serve(h, req)
		at := fmt.Sprintf("%s %s %s, %d bytes", s.Name, w, q.name, len(q.body))
		r.Case(at)
		if a.panicky != "" || a.status != q.status {
			r.Violate("answer: "+q.name, "%s: status %d (wanted %d) %s", at, a.status, q.status, a.panicky)
		}
		if !spy.eof {
			r.Violate("drained: "+strings.Fields(q.name)[0], "%s: answered with %d, but the request body was left behind after %d bytes", at, a.status, spy.n)
		}
		r.Count("bodies drained", 1)
	}
}

// rawConn speaks HTTP/1.1 on one connection.
type rawConn struct {
	c  net.Conn
	br *bufio.Reader
}

func (c *rawConn) exchange(path, ctype string, body []byte, chunked bool, rnd *rand.Rand) (res *http.Response, b []byte, err error) {
	_ = c.c.SetDeadline(time.Now().Add(60 * time.Second))
	var head bytes.Buffer
	fmt.Fprintf(&head, "POST %s HTTP/1.1\r\nHost: verif\r\nContent-Type: %s\r\n", path, ctype)
	if chunked {
		head.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for rest := body; len(rest) > 0; {
			n := 1 + rnd.Intn(len(rest))
			fmt.Fprintf(&head, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		head.WriteString("0\r\n\r\n")
	} else {
		fmt.Fprintf(&head, "Content-Length: %d\r\n\r\n", len(body))
		head.Write(body)
	}
	sent := make(chan error, 1)
	go func() {
		_, err := c.c.Write(head.Bytes())
		sent <- err
	}()
	res, err = http.ReadResponse(c.br, &http.Request{Method: "POST"})
	if err == nil {
		b, err = io.ReadAll(res.Body)
	}
	if err != nil {
		_ = c.c.SetDeadline(time.Now())
	}
	if serr := <-sent; err == nil && serr != nil {
		err = fmt.Errorf("the request was not taken: %w", serr)
	}
	return res, b, err
}

// p14connection sends a history of good and bad requests over one connection.
func p14connection(r *rt.Report, s *rt.Service, w rt.Wire, seed int64) {
	rnd := rand.New(rand.NewSource(seed * 3))
	t := newTapper(s, w)
	sw := &switchable{}
	srv := newServer(s.Default(sw.hook))
	defer srv.Close()
	srv.Config.ErrorLog = discardLog
	for round := 0; round < r.N(4, 20); round++ {
		c, err := net.Dial("tcp", srv.Listener.Addr().String())
		if err != nil {
			r.Broken("dial: %v", err)
			return
		}
		raw := &rawConn{c, bufio.NewReader(c)}
		var history []string
		for i := 0; i < r.N(50, 150); i++ {
			kind := rnd.Intn(6)
			if i%2 == 1 {
				kind = 0 // after every request the connection must do a good call
			}
			q, ok := p14situation(s, w, t, rnd, kind)
			if !ok {
				continue
			}
			sw.h.Store(rt.Hook(p14answer(q)))
			chunked := rnd.Intn(4) == 0
			if len(history) > 3 {
				history = history[1:]
			}
			history = append(history, fmt.Sprintf("%s of %d bytes (chunked %v)", q.name, len(q.body), chunked))
			res, b, err := raw.exchange(q.path, ct(w), q.body, chunked, rnd)
			at := fmt.Sprintf("%s %s, on one connection: %s", s.Name, w, strings.Join(history, "; "))
			r.Case(at)
			r.Count("requests answered on shared connections", 1)
			word := strings.Fields(q.name)[0]
			if len(history) > 1 {
				word = strings.Fields(history[len(history)-2])[0] + " then " + word
			}
			if err != nil {
				r.Violate("connection: "+word, "%s\n    %v", at, err)
				break
			}
			if res.StatusCode != q.status || q.handled && res.Header.Get("X-Id") != q.id {
				r.Violate("connection: "+word, "%s\n    answered with %d %q, wanted %d", at, res.StatusCode, clip(b), q.status)
				break
			}
			if res.Close {
				r.Violate("connection: "+word, "%s\n    answered with %d, but the connection is given up", at, res.StatusCode)
				break
			}
			if q.status == 200 {
				parts, ok := split(w, b)
				if !ok || len(parts) != len(q.rets) {
					r.Violate("connection: "+word, "%s\n    the reply is no list of %d: %q", at, len(q.rets), clip(b))
					break
				}
				for k, p := range parts {
					if d := elementDiffers(w, p, q.rets[k]); d != "" {
						r.Violate("connection: "+word, "%s\n    result %d: %s", at, k, d)
					}
				}
			}
		}
		c.Close()
	}
}

// watchedBody counts closes.
type watchedBody struct {
	io.Reader
	ctx    context.Context
	closed int32
}

func (b *watchedBody) Close() error { atomic.AddInt32(&b.closed, 1); return nil }

// stuck never ends before its context does.
type stuck struct{ ctx context.Context }

func (s stuck) Read([]byte) (int, error) { <-s.ctx.Done(); return 0, s.ctx.Err() }

// p14closes answers calls in every way and looks whether the body was closed.
func p14closes(r *rt.Report, s *rt.Service, w rt.Wire, seed int64) {
	rnd := rand.New(rand.NewSource(seed * 5))
	rc := &recorder{}
	h := s.Default(rc.hook)
	var body *watchedBody
	var how string
	var kind int
	tr := roundTripper(func(req *http.Request) (*http.Response, error) {
		sent, _ := io.ReadAll(req.Body)
		req.Body.Close()
		inner := req.Clone(req.Context())
		inner.Body = io.NopCloser(bytes.NewReader(sent))
		rw := httptest.NewRecorder()
		h.ServeHTTP(rw, inner)
		res := rw.Result()
		b, _ := io.ReadAll(res.Body)
		var rd io.Reader = bytes.NewReader(b)
		switch kind {
		case 0:
			how = "a good reply"
		case 1:
			how = "a good reply with more behind"
			rd = io.MultiReader(bytes.NewReader(b), bytes.NewReader(junk[:rnd.Intn(5000)]))
		case 2:
			how = "a truncated reply"
			rd = &brokenReader{b: b[:rnd.Intn(len(b)+1)], err: io.ErrUnexpectedEOF}
		case 3:
			how = "an empty reply"
			rd = bytes.NewReader(nil)
		case 4:
			how = "garbage"
			rd = bytes.NewReader(append([]byte{0xc1, '}'}, junk[:rnd.Intn(5000)]...))
		case 5:
			how = "a damaged reply"
			d := append([]byte{}, b...)
			for k := 0; k < 3; k++ {
				if len(d) > 0 {
					d[rnd.Intn(len(d))] ^= byte(1 << rnd.Intn(8))
				}
			}
			rd = bytes.NewReader(d)
		case 6:
			res.StatusCode = []int{201, 204, 301, 304, 400, 401, 404, 405, 409, 429, 500, 502, 503}[rnd.Intn(13)]
			how = fmt.Sprint("status ", res.StatusCode)
			rd = bytes.NewReader(junk[:rnd.Intn(100000)])
		case 7:
			how = "the other content type"
			res.Header.Set("Content-Type", ct(rt.JSON-w))
		case 8:
			how = "no content type"
			res.Header.Del("Content-Type")
		case 9:
			how = "a reply that never ends"
			rd = io.MultiReader(bytes.NewReader(b[:len(b)/2]), stuck{req.Context()})
		case 10:
			how = "a failing status reply"
			res.StatusCode = 500
			rd = &brokenReader{b: junk[:rnd.Intn(1000)], err: errors.New("connection reset")}
		case 11:
			how = "an empty list"
			rd = bytes.NewReader(map[rt.Wire][]byte{rt.Msgpack: {0x90}, rt.JSON: []byte("[]")}[w])
		}
		body = &watchedBody{Reader: rd, ctx: req.Context()}
		res.Body = body
		res.ContentLength = -1
		return res, nil
	})
	c, gc := s.Client("http://watched", s.Endpoint(), &http.Client{Transport: tr, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }})
	gc.SetClientEncoding(enc(w))
	sigs := s.Sigs()
	for i := 0; i < r.N(400, 6000); i++ {
		kind = rnd.Intn(12)
		sig := sigs[rnd.Intn(len(sigs))]
		if sig.HTTP {
			continue
		}
		g := gen(rnd.Int63(), w)
		g.Big = false
		rc.set(ifaces(values(g, sig.Out)))
		if sig.HasError {
			rc.set([]interface{}{errors.New("some error")})
			if len(sig.Out) > 1 || sig.Out[0] != rt.TypeErr {
				continue
			}
		}
		body = nil
		ctx, cancel := context.Background(), func() {}
		if kind == 9 {
			ctx, cancel = context.WithTimeout(ctx, time.Duration(rnd.Intn(3))*time.Millisecond)
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Violate("panic: "+how, "%s.%s over %s answered with %s: the client panicked: %v", s.Name, sig.Name, w, how, p)
				}
			}()
			_, _ = call(c, ctx, sig.Name, values(g, sig.In))
		}()
		cancel()
		if body == nil {
			continue // not sent, or not in time
		}
		r.Case(fmt.Sprint(s.Name, sig.Name, w, how))
		if atomic.LoadInt32(&body.closed) == 0 {
			r.Violate("closed: "+strings.TrimRight(how, "0123456789 "), "%s.%s over %s answered with %s: the response body was never closed", s.Name, sig.Name, w, how)
		}
		r.Count("response bodies closed", 1)
	}
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(req *http.Request) (*http.Response, error) { return f(req) }

// p14reuse counts the connections sequential calls need, whatever they are answered with.
func p14reuse(r *rt.Report) {
	s := service("Service")
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		rnd, front := rand.New(rand.NewSource(r.Seed)), rand.New(rand.NewSource(r.Seed+1))
		rc := &recorder{}
		h := s.Default(rc.hook)
		var opened int32
		srv := httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			switch req.Header.Get("X-Do") {
			case "status":
				_, _ = io.Copy(io.Discard, req.Body)
				rw.WriteHeader([]int{400, 404, 500, 503, 201, 302}[front.Intn(6)])
				_, _ = rw.Write(junk[:front.Intn(200_000)])
			default:
				h.ServeHTTP(rw, req)
			}
		}))
		srv.Config.ConnState = func(c net.Conn, st http.ConnState) {
			if st == http.StateNew {
				atomic.AddInt32(&opened, 1)
			}
		}
		srv.Start()
		tr := &http.Transport{}
		c, gc := s.Client(srv.URL, s.Endpoint(), &http.Client{Transport: tr})
		gc.SetClientEncoding(enc(w))
		var sigs []rt.Sig
		for _, sig := range s.Sigs() {
			if plain(s, sig, w) && !sig.HTTP {
				sigs = append(sigs, sig)
			}
		}
		n := r.N(400, 2000)
		what := "answered calls"
		for i := 0; i < n; i++ {
			do := []string{"call", "call", "status"}[rnd.Intn(3)]
			gc.SetDefaultHeaders(http.Header{"X-Do": {do}})
			sig := sigs[rnd.Intn(len(sigs))]
			g := gen(rnd.Int63(), w)
			g.Big = i%8 == 0
			rc.set(ifaces(values(g, sig.Out)))
			_, err := call(c, context.Background(), sig.Name, values(g, sig.In))
			if (err != nil) != (do == "status") {
				r.Violate("reuse: answer", "%s over %s, to be answered by a %s: %v", sig.Name, w, do, err)
			}
			r.Count("sequential calls", 1)
			r.Case(fmt.Sprint("reuse", w, do, sig.Name))
			if o := atomic.LoadInt32(&opened); o > 1 {
				r.Violate("reuse", "%d sequential %s over %s needed %d connections (last: %s)", i+1, what, w, o, do)
				break
			}
		}
		tr.CloseIdleConnections()
		srv.Close()
	}
}

// p14cancelled cancels calls at random points; the others must get their own results.
func p14cancelled(r *rt.Report) {
	s := service("Service")
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		var ticks int64
		h := s.Default(func(svc, method string, rw http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
			n := atomic.AddInt64(&ticks, 1)
			jitter(func() int { return int(n * 7919 >> 3) })
			return p08answer(s, method, rw, req, args)
		})
		srv := httptest.NewServer(h)
		srv.Config.ErrorLog = discardLog
		tr := &http.Transport{MaxConnsPerHost: 3}
		c, gc := s.Client(srv.URL, s.Endpoint(), &http.Client{Transport: tr})
		gc.SetClientEncoding(enc(w))
		var wg sync.WaitGroup
		var sigs []rt.Sig
		for _, sig := range s.Sigs() {
			if plain(s, sig, w) && !sig.HTTP && len(sig.In) == len(sig.Out) && len(sig.In) > 0 && reflect.DeepEqual(sig.In, sig.Out) {
				sigs = append(sigs, sig)
			}
		}
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(seed int64) {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed))
				for i := 0; i < r.N(80, 600); i++ {
					sig := sigs[rnd.Intn(len(sigs))]
					g := gen(rnd.Int63(), w)
					g.Big = false
					args := values(g, sig.In)
					ctx, cancel := context.Background(), func() {}
					limited := rnd.Intn(2) == 0
					if limited {
						ctx, cancel = context.WithTimeout(ctx, time.Duration(rnd.Intn(4000))*time.Microsecond)
					}
					rets, err := call(c, ctx, sig.Name, args)
					cancel()
					r.Case(fmt.Sprint("cancelled", sig.Name, w, seed, i))
					switch {
					case err != nil && !limited:
						r.Violate("cancelled others", "%s over %s failed while other calls were being cancelled: %v", sig.Name, w, err)
					case err != nil:
						r.Count("calls cancelled at random", 1)
					default:
						for j, o := range sig.Out {
							_ = o
							if d := rt.DiffV(w, args[j], rets[j]); d != "" {
								r.Violate("delivered to another", "%s over %s, among cancelled calls: result %d is not its own: %s", sig.Name, w, j, d)
							}
						}
						r.Count("calls completed among cancelled ones", 1)
					}
				}
			}(r.Seed*100 + int64(k))
		}
		wg.Wait()
		tr.CloseIdleConnections()
		srv.Close()
	}
}

// p14rpc starts and stops GoRPC servers and clients.
func p14rpc(r *rt.Report) {
	for _, s := range services {
		if s.RPCServer == nil {
			continue
		}
		for i := 0; i < r.N(6, 40); i++ {
			addr := freeAddr()
			srv := s.RPCServer(addr, func(svc, method string, w http.ResponseWriter, req *http.Request, args []interface{}) []interface{} {
				return nil
			}, nil)
			if err := srv.Start(); err != nil {
				continue
			}
			var clients []rt.RPCClient
			for k := 0; k < 3; k++ {
				c := s.RPCClient(addr, nil)
				c.Start()
				clients = append(clients, c)
				for _, sig := range s.Sigs() {
					if !sig.HasError {
						_, _ = rpcCall(c, sig.Name, values(gen(int64(i), rt.Gob), sig.In))
						break
					}
				}
			}
			if i%2 == 0 {
				srv.Stop()
			}
			for _, c := range clients {
				c.Stop()
				r.Count("gorpc connections ended", 1)
			}
			if i%2 == 1 {
				srv.Stop()
			}
			r.Case(fmt.Sprint("gorpc", s.Name, i))
		}
	}
}
