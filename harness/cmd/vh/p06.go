package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/rt"
)

func init() { checks["P06"] = p06 }

func p06(r *rt.Report) {
	r.Rule = "each case is one call of a generated client during which one fault was injected (transport, context, status, response bytes, arguments), or none; distinct by (service, method, encoding, fault)"
	r.Assume = []string{"a reply is taken as undecodable when it is a strict prefix of the reply, breaks off, is empty, is no list, or is of the other encoding"}
	var wg sync.WaitGroup
	for _, s := range services {
		for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
			wg.Add(1)
			go func(s *rt.Service, w rt.Wire) {
				defer wg.Done()
				d := &p06rig{r: r, s: s, w: w, rnd: rand.New(rand.NewSource(r.Seed*31 + int64(w)))}
				d.faked()
				d.contexts()
				d.network()
			}(s, w)
		}
	}
	wg.Wait()
	p06unencodable(r)
	p06large(r)
	r.AtLeast("failures reported", 5000)
	r.AtLeast("statuses reported", 1000)
	r.AtLeast("context failures reported", 100)
}

type p06rig struct {
	r   *rt.Report
	s   *rt.Service
	w   rt.Wire
	rnd *rand.Rand
}

// fakeTransport answers with what it is told.
type fakeTransport struct {
	resp   func(req *http.Request) (*http.Response, error)
	length int64 // to announce, when positive
	closed int32
	count  int32
}

type closeCounter struct {
	io.Reader
	n    *int32
	once sync.Once
}

func (c *closeCounter) Close() error {
	c.once.Do(func() { atomic.AddInt32(c.n, 1) })
	return nil
}

func (f *fakeTransport) RoundTrip(req *http.Request) (*http.Response, error) {
	atomic.AddInt32(&f.count, 1)
	if req.Body != nil {
		_, _ = io.Copy(io.Discard, req.Body)
		req.Body.Close()
	}
	resp, err := f.resp(req)
	if resp != nil {
		resp.Request = req
		if f.length > 0 {
			resp.ContentLength = f.length
			resp.Header.Set("Content-Length", fmt.Sprint(f.length))
		}
		if resp.Body == http.NoBody { // need not be closed
			atomic.AddInt32(&f.closed, 1)
		} else {
			resp.Body = &closeCounter{Reader: resp.Body, n: &f.closed}
		}
	}
	return resp, err
}

func response(status int, ctype string, body io.Reader) *http.Response {
	h := http.Header{}
	if ctype != "" {
		h.Set("Content-Type", ctype)
	}
	resp := &http.Response{
		StatusCode: status, Status: fmt.Sprint(status, " ", http.StatusText(status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(body), ContentLength: -1,
	}
	// announced, in chunks, of HTTP/2, or until the connection is closed
	switch form := responses.Add(1) % 4; form {
	case 0, 1:
		if b, ok := body.(*bytes.Reader); ok {
			resp.ContentLength = int64(b.Len())
			h.Set("Content-Length", fmt.Sprint(b.Len()))
			if b.Len() == 0 {
				resp.Body = http.NoBody
			}
		}
		if form == 1 {
			resp.Proto, resp.ProtoMajor, resp.ProtoMinor = "HTTP/2.0", 2, 0
		}
	case 2:
		resp.TransferEncoding = []string{"chunked"}
	case 3:
		resp.Close = true
	}
	return resp
}

// responses counts the responses made
var responses atomic.Int64

// failed checks that a call failed as it should.
func (d *p06rig) failed(fault string, detail string, sig rt.Sig, err error) bool {
	key := fmt.Sprintf("%s: %s", d.w, fault)
	at := fmt.Sprintf("%s.%s over %s, %s %s", d.s.Name, sig.Name, d.w, fault, detail)
	d.r.Case(key + d.s.Name + sig.Name + detail)
	if err == nil {
		d.r.Violate(key, "%s: no client error", at)
		return false
	}
	var ce *gotsrpc.ClientError
	if !errors.As(err, &ce) || ce == nil {
		d.r.Violate(key, "%s: the client error %T %v is no *ClientError", at, err, err)
		return false
	}
	if err.Error() == "" {
		d.r.Violate(key, "%s: the client error has no message", at)
	}
	d.r.Count("failures reported", 1)
	d.r.See("faults", fault)
	return true
}

func (d *p06rig) status(detail string, sig rt.Sig, err error, status int, body []byte) {
	if !d.failed("status", detail, sig, err) {
		return
	}
	var he *gotsrpc.HTTPError
	if !errors.As(err, &he) || he == nil {
		d.r.Violate(d.w.String()+": status", "%s.%s over %s, status %d: no *HTTPError in %v", d.s.Name, sig.Name, d.w, status, err)
		return
	}
	if he.StatusCode != status || he.Body != string(body) {
		d.r.Violate(d.w.String()+": status", "%s.%s over %s: received %d %q, reported %d %q", d.s.Name, sig.Name, d.w, status, clip(body), he.StatusCode, clip([]byte(he.Body)))
	}
	d.r.Count("statuses reported", 1)
	d.r.See("statuses", fmt.Sprint(status))
}

// faked puts faults between the client and the wire.
func (d *p06rig) faked() {
	r, s := d.r, d.s
	rc := &recorder{}
	h := s.Default(rc.hook)
	ft := &fakeTransport{}
	client, gc := s.Client("http://fake", s.Endpoint(), &http.Client{Transport: ft, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }})
	gc.SetClientEncoding(enc(d.w))
	ctx := context.Background()
	for mi, sig := range s.Sigs() {
		if s.Name == "UnionService" && d.w == rt.JSON || sig.HasError && d.w == rt.JSON {
			continue
		}
		if mi%2 != int(r.Seed)%2 && !r.Thorough {
			continue
		}
		g := gen(r.Seed*1e6+int64(mi), d.w)
		g.Big = false
		in, out := values(g, sig.In), values(g, sig.Out)
		args := func() []reflect.Value { return in }
		do := func() error {
			_, err := call(client, ctx, sig.Name, args())
			return err
		}
		// a true reply
		body, _ := newTapper(s, d.w).body(sig.Name, in)
		rc.set(ifaces(out))
		a := put(h, "POST", s.Endpoint()+"/"+sig.Name, ct(d.w), bytes.NewReader(body))
		a.body = unpadded(a.body, d.w)
		if a.status != 200 {
			r.Violate(d.w.String()+": reply", "%s.%s: status %d", s.Name, sig.Name, a.status)
			continue
		}
		ft.resp = func(*http.Request) (*http.Response, error) {
			return response(200, ct(d.w), bytes.NewReader(a.body)), nil
		}
		if err := do(); err != nil {
			r.Violate(d.w.String()+": completed", "%s.%s over %s: client error %v on a complete reply", s.Name, sig.Name, d.w, err)
			continue
		}
		r.Count("completed calls", 1)

		// transport errors
		for _, e := range []error{errors.New("broken pipe"), io.EOF, io.ErrUnexpectedEOF, &net.OpError{Op: "dial", Err: errors.New("connection refused")}} {
			ft.resp = func(*http.Request) (*http.Response, error) { return nil, e }
			err := do()
			if d.failed("transport error", e.Error(), sig, err) && !errors.Is(err, e) {
				r.Violate(d.w.String()+": transport error", "%s.%s: the cause %v is not in %v", s.Name, sig.Name, e, err)
			}
		}
		// statuses
		for _, status := range []int{201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 403, 404, 405, 408, 409, 413, 418, 429, 499, 500, 501, 502, 503, 504, 511, 599} {
			for k := 0; k < 2; k++ {
				var b []byte
				switch d.rnd.Intn(5) {
				case 0:
				case 1:
					b = a.body // even a well-formed reply
				case 2:
					b = []byte("could not load args\n")
				case 3:
					b = bytes.Repeat([]byte("<html>"), 20000)
				default:
					b = make([]byte, d.rnd.Intn(100))
					d.rnd.Read(b)
				}
				ctype := []string{ct(d.w), "text/html", "", ctJSON, ctMsgpack}[d.rnd.Intn(5)]
				ft.resp = func(*http.Request) (*http.Response, error) { return response(status, ctype, bytes.NewReader(b)), nil }
				d.status(fmt.Sprint(status), sig, do(), status, b)
			}
		}
		// broken replies
		step := 1
		if max := r.N(30, 300); len(a.body) > max {
			step = len(a.body) / max
		}
		for cut := d.rnd.Intn(step); cut < len(a.body); cut += step {
			part := a.body[:cut]
			if d.rnd.Intn(2) == 0 {
				ft.length = int64(len(a.body))
			}
			ft.resp = func(*http.Request) (*http.Response, error) { return response(200, ct(d.w), bytes.NewReader(part)), nil }
			d.failed("truncated reply", fmt.Sprint(cut), sig, do())
			ft.resp = func(*http.Request) (*http.Response, error) {
				return response(200, ct(d.w), &brokenReader{part, io.ErrUnexpectedEOF}), nil
			}
			err := do()
			if d.failed("reply breaks off", fmt.Sprint(cut), sig, err) && !errors.Is(err, io.ErrUnexpectedEOF) {
				r.Violate(d.w.String()+": reply breaks off", "%s.%s: the read error is not in %v", s.Name, sig.Name, err)
			}
			ft.length = 0
		}
		// a read error after the whole reply, whatever was announced
		for _, e := range []error{errors.New("reset"), io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded} {
			for _, ft.length = range []int64{0, int64(len(a.body)), int64(len(a.body)) + 7} {
				ft.resp = func(*http.Request) (*http.Response, error) {
					return response(200, ct(d.w), &brokenReader{a.body, e}), nil
				}
				err := do()
				if d.failed("reply breaks off", fmt.Sprintf("after its end (%v, %d announced)", e, ft.length), sig, err) && !errors.Is(err, e) {
					r.Violate(d.w.String()+": reply breaks off", "%s.%s: the read error %v is not in %v", s.Name, sig.Name, e, err)
				}
			}
		}
		ft.length = 0
		for _, x := range []struct {
			ctype string
			body  []byte
		}{
			{ct(d.w), nil}, {ct(d.w), nil}, {ct(d.w), nil}, {ct(d.w), nil}, {"", nil}, {"text/html; charset=utf-8", []byte("<html><body>sign in</body></html>")}, {ctJSON, []byte("could not reply")}, {ctMsgpack, []byte{0xc1}}, {ctJSON, []byte(`tru`)}, {ctMsgpack, []byte("\xa5hello")},
		} {
			ft.resp = func(*http.Request) (*http.Response, error) {
				return response(200, x.ctype, bytes.NewReader(x.body)), nil
			}
			d.failed("undecodable reply", fmt.Sprintf("%s %q", x.ctype, x.body), sig, do())
		}
		if d.w == rt.Msgpack {
			ft.resp = func(*http.Request) (*http.Response, error) {
				return response(200, ctJSON, bytes.NewReader(a.body)), nil
			}
			d.failed("undecodable reply", "msgpack as json", sig, do())
		}
	}
	// no request can be made of these
	for _, u := range []string{"http://bad host", "://", "http://x\x7f", "nope://x", "", "http://[::1", "%zz"} {
		c, gc := s.Client(u, s.Endpoint(), nil)
		gc.SetClientEncoding(enc(d.w))
		sig := s.Sigs()[0]
		_, err := call(c, ctx, sig.Name, values(gen(1, d.w), sig.In))
		d.failed("bad url", u, sig, err)
	}
}

// contexts cancels calls before, during and after the response's header.
func (d *p06rig) contexts() {
	r, s := d.r, d.s
	for k := 0; k < r.N(3, 30); k++ {
		sigs := s.Sigs()
		sig := sigs[d.rnd.Intn(len(sigs))]
		in := values(gen(int64(k), d.w), sig.In)
		arrived := make(chan struct{}, 10)
		release := make(chan struct{})
		mode := 0
		var mu sync.Mutex
		srv := newServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			mu.Lock()
			m := mode
			mu.Unlock()
			_, _ = io.Copy(io.Discard, req.Body)
			if m == 1 { // the header and a part of the reply
				w.Header().Set("Content-Type", ct(d.w))
				w.WriteHeader(200)
				_, _ = w.Write([]byte(map[rt.Wire]string{rt.JSON: "[", rt.Msgpack: "\x95\xa5"}[d.w]))
				w.(http.Flusher).Flush()
			}
			arrived <- struct{}{}
			<-release
		}))
		client, gc := s.Client(srv.URL, s.Endpoint(), srv.Client())
		gc.SetClientEncoding(enc(d.w))
		is := func(fault string, err error, want error) {
			if !d.failed(fault, "", sig, err) {
				return
			}
			if !errors.Is(err, want) {
				r.Violate(d.w.String()+": "+fault, "%s.%s over %s: errors.Is(_, %v) fails for %v", s.Name, sig.Name, d.w, want, err)
			}
			r.Count("context failures reported", 1)
		}
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		_, err := call(client, ctx, sig.Name, in)
		is("cancelled before", err, context.Canceled)
		ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		_, err = call(client, ctx, sig.Name, in)
		is("expired before", err, context.DeadlineExceeded)
		cancel()
		for m := 0; m < 2; m++ {
			mu.Lock()
			mode = m
			mu.Unlock()
			ctx, cancel = context.WithCancel(context.Background())
			go func() {
				<-arrived
				time.Sleep(time.Duration(d.r.Seed%3) * time.Millisecond)
				cancel()
			}()
			_, err = call(client, ctx, sig.Name, in)
			is(fmt.Sprintf("cancelled during %d", m), err, context.Canceled)
			ctx, cancel = context.WithTimeout(context.Background(), 15*time.Millisecond)
			_, err = call(client, ctx, sig.Name, in)
			is(fmt.Sprintf("expired during %d", m), err, context.DeadlineExceeded)
			cancel()
			for len(arrived) > 0 {
				<-arrived
			}
		}
		_, err = call(client, nil, sig.Name, in) //nolint:staticcheck
		d.failed("nil context", "", sig, err)
		close(release)
		srv.Close()
	}
}

// network: no server, closing connections, lying about the length, panics.
func (d *p06rig) network() {
	r, s := d.r, d.s
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Broken("listen: %v", err)
		return
	}
	addr := l.Addr().String()
	l.Close()
	sigs := s.Sigs()
	for k := 0; k < r.N(4, 40); k++ {
		sig := sigs[d.rnd.Intn(len(sigs))]
		in := values(gen(int64(k), d.w), sig.In)
		c, gc := s.Client("http://"+addr, s.Endpoint(), nil)
		gc.SetClientEncoding(enc(d.w))
		_, err := call(c, context.Background(), sig.Name, in)
		d.failed("refused", "", sig, err)
	}
	mode := 0
	answer := s.Default((&recorder{}).hook)
	srv := newServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		rec := httptest.NewRecorder()
		if mode == 5 || mode == 6 {
			answer.ServeHTTP(rec, req)
		}
		_, _ = io.Copy(io.Discard, req.Body)
		switch mode {
		case 5: // a whole reply of which more was announced
			w.Header().Set("Content-Type", ct(d.w))
			w.Header().Set("Content-Length", fmt.Sprint(rec.Body.Len()+5))
			_, _ = w.Write(rec.Body.Bytes())
		case 6:
			c, _, _ := w.(http.Hijacker).Hijack()
			_, _ = fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: %s\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", ct(d.w), rec.Body.Len(), rec.Body.Bytes())
			c.Close()
		case 0:
			panic(http.ErrAbortHandler)
		case 1:
			w.Header().Set("Content-Type", ct(d.w))
			w.Header().Set("Content-Length", "1000")
			_, _ = w.Write([]byte("[\"abc"))
		case 2:
			c, _, _ := w.(http.Hijacker).Hijack()
			_, _ = c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Type: " + ct(d.w) + "\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n[1"))
			c.Close()
		case 3:
			c, _, _ := w.(http.Hijacker).Hijack()
			_, _ = c.Write([]byte("nonsense\r\n\r\n"))
			c.Close()
		case 4:
			c, _, _ := w.(http.Hijacker).Hijack()
			_ = c.(*net.TCPConn).SetLinger(0)
			c.Close()
		case 7, 8: // no reply at all
			w.Header().Set("Content-Type", ct(d.w))
			if mode == 8 {
				w.(http.Flusher).Flush()
			}
		}
	}))
	srv.Config.ErrorLog = discardLog
	defer srv.Close()
	for mode = 0; mode < 9; mode++ {
		for k := 0; k < r.N(4, 40); k++ {
			sig := sigs[d.rnd.Intn(len(sigs))]
			in := values(gen(int64(k), d.w), sig.In)
			c, gc := s.Client(srv.URL, s.Endpoint(), srv.Client())
			gc.SetClientEncoding(enc(d.w))
			_, err := call(c, context.Background(), sig.Name, in)
			d.failed(fmt.Sprintf("server fault %d", mode), "", sig, err)
		}
	}
	// the real proxy: a panicking service and statuses of its own
	rc := &recorder{}
	h := s.Default(rc.hook)
	real := newServer(h)
	real.Config.ErrorLog = discardLog
	defer real.Close()
	c, gc := s.Client(real.URL, s.Endpoint(), real.Client())
	gc.SetClientEncoding(enc(d.w))
	wrong, gw := s.Client(real.URL, s.Endpoint()+"x", real.Client())
	gw.SetClientEncoding(enc(d.w))
	for _, sig := range sigs {
		in := values(gen(7, d.w), sig.In)
		rc.on = func(event) { panic(http.ErrAbortHandler) }
		_, err := call(c, context.Background(), sig.Name, in)
		d.failed("panicking service", "", sig, err)
		_, err = call(wrong, context.Background(), sig.Name, in)
		d.status("wrong endpoint", sig, err, 404, []byte("method not found\n"))
		if sig.HTTP {
			rc.on = func(e event) { http.Error(e.w, "go away", 403) }
			_, err = call(c, context.Background(), sig.Name, in)
			d.status("own status", sig, err, 403, []byte("go away\n"))
			rc.on = func(e event) { e.w.WriteHeader(204) }
			_, err = call(c, context.Background(), sig.Name, in)
			d.status("own status", sig, err, 204, nil)
		}
	}
}

// p06unencodable passes arguments no encoding can express.
func p06unencodable(r *rt.Report) {
	s := service("Service")
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		d := &p06rig{r: r, s: s, w: w}
		ft := &fakeTransport{resp: func(*http.Request) (*http.Response, error) {
			return response(200, ct(w), strings.NewReader(map[rt.Wire]string{rt.JSON: "[null]", rt.Msgpack: "\x91\xc0"}[w])), nil
		}}
		client, gc := s.Client("http://fake", s.Endpoint(), &http.Client{Transport: ft})
		gc.SetClientEncoding(enc(w))
		big := strings.Repeat("x", 1<<17)
		for _, bad := range []interface{}{complex(1, 2), make(chan<- int), selfer{}, selfer{5000}, selfer{7}, withFunc{"a", 2i, "b"}, []interface{}{big, 2i}, map[string]interface{}{"a": []complex128{1i}}} {
			for _, m := range []string{"Any", "Anys", "AnyMap"} {
				sig := s.Sig(m)
				x := bad
				if m == "Anys" {
					x = []interface{}{big, bad, 1}
				}
				if m == "AnyMap" {
					x = map[string]interface{}{"a": big, "b": bad}
				}
				before := ft.count
				_, err := call(client, context.Background(), m, []reflect.Value{typed(sig.In[0], x)})
				d.failed("unencodable argument", fmt.Sprintf("%T", bad), sig, err)
				if ft.count != before {
					r.Violate(w.String()+": unencodable argument", "%s(%T) over %s: a request was sent", m, bad, w)
				}
			}
		}
	}
}
