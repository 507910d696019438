package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/rt"
)

func init() { checks["P07"] = p07 }

func p07(r *rt.Report) {
	r.Rule = "each case is one request recorded at the transport of the http.Client that should have been used, after a random history of setter calls; distinct by (service, method, url, headers, body)"
	var wg sync.WaitGroup
	for _, s := range services {
		wg.Add(1)
		go func(s *rt.Service) {
			defer wg.Done()
			for k := r.N(40, 1000); k > 0; k-- {
				p07history(r, s, rand.New(rand.NewSource(r.Seed*1e6+int64(k))))
			}
		}(s)
	}
	wg.Wait()
	for _, s := range services {
		p07policy(r, s)
	}
	for _, s := range services {
		p07factory(r, s)
	}
	r.AtLeast("requests recorded", 3000)
	r.AtLeast("setter calls", 1000)
}

type recordedRequest struct {
	req  *http.Request
	body []byte
	err  error
}

// recordingClient is an http.Client that keeps its requests and answers as told.
type recordingClient struct {
	id     int
	mu     sync.Mutex
	reqs   []recordedRequest
	answer func() (*http.Response, error)
	client *http.Client
}

func (c *recordingClient) RoundTrip(req *http.Request) (*http.Response, error) {
	rec := recordedRequest{req: req}
	if req.Body != nil {
		rec.body, rec.err = io.ReadAll(req.Body)
		req.Body.Close()
	}
	c.mu.Lock()
	c.reqs = append(c.reqs, rec)
	c.mu.Unlock()
	resp, err := c.answer()
	if resp != nil {
		resp.Request = req
	}
	return resp, err
}

// the jar tells whether the http.Client was used, not only its transport
func (c *recordingClient) SetCookies(*url.URL, []*http.Cookie) {}
func (c *recordingClient) Cookies(*url.URL) []*http.Cookie {
	return []*http.Cookie{{Name: "jar", Value: fmt.Sprint(c.id)}}
}

func newRecordingClient(id int) *recordingClient {
	c := &recordingClient{id: id, answer: func() (*http.Response, error) { return nil, errTapped }}
	c.client = &http.Client{Transport: c, Jar: c}
	return c
}

func (c *recordingClient) take() []recordedRequest {
	c.mu.Lock()
	defer c.mu.Unlock()
	x := c.reqs
	c.reqs = nil
	return x
}

var p07names = []string{"X-A", "X-B", "Authorization", "Accept-Language", "Content-Type", "Accept", "X-Foomo-S2s", "User-Agent", "X-Foomo-S2S", "x-lower", "Content-Encoding", "X-Empty"}

func p07headers(rnd *rand.Rand) http.Header {
	switch rnd.Intn(6) {
	case 0:
		return nil
	case 1:
		return http.Header{}
	}
	h := http.Header{}
	for i := rnd.Intn(6); i > 0; i-- {
		n := p07names[rnd.Intn(len(p07names))]
		for j := 1 + rnd.Intn(3); j > 0; j-- {
			h.Add(n, fmt.Sprintf("%s-%d", n, rnd.Intn(1000)))
		}
	}
	return h
}

type p07ctx struct{}

func p07history(r *rt.Report, s *rt.Service, rnd *rand.Rand) {
	var clients []*recordingClient
	newC := func() *recordingClient {
		c := newRecordingClient(len(clients) + 1)
		clients = append(clients, c)
		return c
	}
	base := []string{"http://host", "http://host:81/prefix", "https://host/a/b", "http://127.0.0.1:1"}[rnd.Intn(4)]
	ep := []string{s.Endpoint(), "", "/x/y-z", "/ep"}[rnd.Intn(4)]
	current := newC()
	client, gc := s.Client(base, ep, current.client)
	w := rt.Msgpack
	var headers, given, givenCopy http.Header
	var history []string
	var handed []http.Header
	var handedCopies []http.Header
	sigs := s.Sigs()
	for step := 0; step < 25; step++ {
		switch rnd.Intn(7) {
		case 0:
			w = []rt.Wire{rt.Msgpack, rt.JSON}[rnd.Intn(2)]
			e := enc(w)
			if w == rt.JSON && rnd.Intn(3) == 0 {
				e = gotsrpc.ClientEncoding(7) // anything else is JSON
			}
			gc.SetClientEncoding(e)
			history = append(history, fmt.Sprintf("SetClientEncoding(%d)", e))
			r.Count("setter calls", 1)
		case 1:
			given = p07headers(rnd)
			givenCopy = given.Clone()
			handed, handedCopies = append(handed, given), append(handedCopies, givenCopy)
			headers = givenCopy
			gc.SetDefaultHeaders(given)
			history = append(history, fmt.Sprintf("SetDefaultHeaders(%v)", given))
			r.Count("setter calls", 1)
		case 2:
			current = newC()
			if rnd.Intn(3) == 0 {
				current = clients[rnd.Intn(len(clients))]
			}
			gc.SetTransportHttpClient(current.client)
			history = append(history, fmt.Sprintf("SetTransportHttpClient(%d)", current.id))
			r.Count("setter calls", 1)
		default:
			sig := sigs[rnd.Intn(len(sigs))]
			in := values(gen(rnd.Int63(), w), sig.In)
			ctx := context.WithValue(context.Background(), p07ctx{}, step)
			deadline := time.Now().Add(time.Hour)
			ctx, cancel := context.WithDeadline(ctx, deadline)
			mode := rnd.Intn(4)
			current.answer = func() (*http.Response, error) {
				switch mode {
				case 0:
					return nil, errTapped
				case 1:
					return response(503, "", strings.NewReader("busy")), nil
				case 2:
					return nil, io.EOF
				}
				return response(200, ctJSON, strings.NewReader("[]")), nil
			}
			_, err := call(client, ctx, sig.Name, in)
			cancel()
			at := fmt.Sprintf("%s.%s after %v", s.Name, sig.Name, history)
			var got []recordedRequest
			for _, c := range clients {
				q := c.take()
				if c != current && len(q) > 0 {
					r.Violate("http client", "%s: the request went through http.Client %d instead of %d", at, c.id, current.id)
				}
				if c == current {
					got = q
				}
			}
			if len(got) != 1 {
				r.Violate("requests", "%s: %d requests through the configured http.Client, client error %v", at, len(got), err)
				continue
			}
			p07request(r, s, sig, at, got[0], base+ep+"/"+sig.Name, w, headers, current.id, in)
			if x := got[0].req.Context().Value(p07ctx{}); x != step {
				r.Violate("context", "%s: the request's context is not the caller's", at)
			}
			if dl, ok := got[0].req.Context().Deadline(); !ok || !dl.Equal(deadline) {
				r.Violate("context", "%s: the request's deadline is %v, the caller's %v", at, dl, deadline)
			}
			if mode == 1 {
				var he *gotsrpc.HTTPError
				if !errors.As(err, &he) {
					r.Violate("answer", "%s: client error %v for a 503", at, err)
				}
			}
		}
		for k := range handed {
			if !reflect.DeepEqual(handed[k], handedCopies[k]) {
				r.Violate("default headers modified", "%s after %v: the default headers given as %v are now %v", s.Name, history, handedCopies[k], handed[k])
				return
			}
		}
	}
}

func p07request(r *rt.Report, s *rt.Service, sig rt.Sig, at string, got recordedRequest, wantURL string, w rt.Wire, headers http.Header, jar int, in []reflect.Value) {
	req := got.req
	if req.Method != "POST" {
		r.Violate("method", "%s: a %s request", at, req.Method)
	}
	if u := req.URL.String(); u != wantURL {
		r.Violate("url", "%s: request to %s, wanted %s", at, u, wantURL)
	}
	for k, v := range map[string]string{"Content-Type": ct(w), "Accept": ct(w), "X-Foomo-S2s": "true"} {
		if vs := req.Header.Values(k); len(vs) != 1 || vs[0] != v {
			r.Violate("header "+k, "%s: %s is %q, wanted %q", at, k, vs, v)
		}
	}
	own := map[string]bool{"Content-Type": true, "Accept": true, "X-Foomo-S2s": true, "Cookie": true}
	for k, vs := range headers {
		if !own[k] && !reflect.DeepEqual(req.Header[k], vs) {
			r.Violate("default headers", "%s: header %s is %q, the default is %q", at, k, req.Header[k], vs)
		}
	}
	for _, k := range p07names {
		k = http.CanonicalHeaderKey(k)
		if !own[k] && k != "User-Agent" && headers[k] == nil && req.Header[k] != nil {
			r.Violate("stale headers", "%s: header %s %q is no default any more", at, k, req.Header[k])
		}
	}
	if jar > 0 && req.Header.Get("Cookie") != fmt.Sprintf("jar=%d", jar) {
		r.Violate("http client", "%s: the http.Client's jar was not used: %q", at, req.Header.Get("Cookie"))
	}
	if got.err != nil || req.ContentLength != int64(len(got.body)) {
		r.Violate("body", "%s: a body of %d bytes announced as %d (%v)", at, len(got.body), req.ContentLength, got.err)
	}
	if len(in) == 0 {
		if len(bytes.TrimSpace(got.body)) > 2 {
			r.Violate("body", "%s: no arguments encoded as %q", at, clip(got.body))
		}
	} else if parts, ok := split(w, got.body); !ok || len(parts) != len(in) {
		r.Violate("body", "%s: %d arguments over %s encoded as %q", at, len(in), w, clip(got.body))
	} else {
		for i, p := range parts {
			if bad := elementDiffers(w, p, in[i]); bad != "" {
				r.Violate("body", "%s over %s: argument %d encoded as %q: %s", at, w, i, clip(p), bad)
			}
		}
	}
	r.Count("requests recorded", 1)
	r.See("urls", wantURL)
	r.Case(fmt.Sprint(s.Name, sig.Name, wantURL, headers, string(got.body)))
}

// p07policy: all there is to configure in an http.Client applies, and calls
// leave it as it is.
func p07policy(r *rt.Report, s *rt.Service) {
	dflt := newRecordingClient(1)
	old := http.DefaultTransport
	http.DefaultTransport = dflt // what a client without a transport of its own uses
	defer func() { http.DefaultTransport = old }()
	other := newRecordingClient(2)
	sigs := s.Sigs()
	for i := 0; i < r.N(24, 200); i++ {
		rnd := rand.New(rand.NewSource(r.Seed*1e6 + int64(i)))
		sig := sigs[rnd.Intn(len(sigs))]
		w := []rt.Wire{rt.Msgpack, rt.JSON}[rnd.Intn(2)]
		in := values(gen(rnd.Int63(), w), sig.In)
		asked := 0
		errRefused := errors.New("refused")
		policy := i % 4
		hc := &http.Client{Jar: dflt}
		if policy == 1 {
			hc.Jar = nil
		}
		if policy == 2 {
			hc.CheckRedirect = func(*http.Request, []*http.Request) error { asked++; return errRefused }
		}
		if policy == 3 {
			hc.Timeout = 30 * time.Millisecond
		}
		was := *hc
		dflt.answer = func() (*http.Response, error) {
			switch policy {
			case 2:
				resp := response(307, "", strings.NewReader(""))
				resp.Header.Set("Location", "http://elsewhere/")
				return resp, nil
			case 3: // until the client gives up
				dflt.mu.Lock()
				ctx := dflt.reqs[len(dflt.reqs)-1].req.Context()
				dflt.mu.Unlock()
				select {
				case <-ctx.Done():
					return nil, ctx.Err()
				case <-time.After(10 * time.Second):
				}
			}
			return response(200, ctJSON, strings.NewReader("[]")), nil
		}
		var client interface{}
		var gc gotsrpc.Client
		if rnd.Intn(2) == 0 {
			client, gc = s.Client("http://h", s.Endpoint(), hc)
		} else {
			client, gc = s.Client("http://h", s.Endpoint(), other.client)
			gc.SetTransportHttpClient(hc)
		}
		gc.SetClientEncoding(enc(w))
		t := time.Now()
		_, err := call(client, context.Background(), sig.Name, in)
		at := fmt.Sprintf("%s.%s with a client %+v", s.Name, sig.Name, was)
		if n := len(other.take()); n > 0 {
			r.Violate("http client", "%s: the request went through the transport of another http.Client", at)
		}
		got := dflt.take()
		if len(got) != 1 {
			r.Violate("requests", "%s: %d requests through the default transport, client error %v", at, len(got), err)
			continue
		}
		if c, _ := got[0].req.Cookie("jar"); (c != nil) != (was.Jar != nil) {
			r.Violate("jar", "%s: sent with cookie %v", at, c)
		}
		switch policy {
		case 2:
			if asked != 1 || !errors.Is(err, errRefused) {
				r.Violate("redirects", "%s: CheckRedirect was asked %d times, client error %v", at, asked, err)
			}
		case 3:
			if d := time.Since(t); err == nil || d > 8*time.Second {
				r.Violate("timeout", "%s: after %v, client error %v", at, d, err)
			}
		}
		if hc.Transport != nil || hc.Jar != was.Jar || hc.Timeout != was.Timeout || (hc.CheckRedirect == nil) != (was.CheckRedirect == nil) {
			r.Violate("http client modified", "%s: it is now %+v", at, *hc)
		}
		if policy == 2 && asked == 1 { // it is still the one given
			_ = hc.CheckRedirect(nil, nil)
			if asked != 2 {
				r.Violate("http client modified", "%s: it has another CheckRedirect now", at)
			}
		}
		r.Count("configured clients observed", 1)
		r.Case(fmt.Sprint(s.Name, sig.Name, w, policy, i))
	}
}

// p07factory: the default factory is used by all constructors not given a client.
func p07factory(r *rt.Report, s *rt.Service) {
	n := 0
	var last *recordingClient
	gotsrpc.SetDefaultHttpClientFactory(func() *http.Client {
		n++
		last = newRecordingClient(n)
		return last.client
	})
	sig := s.Sigs()[0]
	in := values(gen(1, rt.Msgpack), sig.In)
	for name, mk := range map[string]func() (interface{}, gotsrpc.Client){
		"default client":  func() (interface{}, gotsrpc.Client) { return s.DefaultClient("http://h") },
		"plain client":    func() (interface{}, gotsrpc.Client) { return s.PlainClient("http://h", s.Endpoint()) },
		"with nil client": func() (interface{}, gotsrpc.Client) { return s.Client("http://h", s.Endpoint(), nil) },
	} {
		n = 0
		c, _ := mk()
		_, _ = call(c, context.Background(), sig.Name, in)
		_, _ = call(c, context.Background(), sig.Name, in)
		at := s.Name + " " + name
		if n != 1 {
			r.Violate("factory", "%s: the default factory was used %d times for one client", at, n)
			continue
		}
		got := last.take()
		if len(got) != 2 {
			r.Violate("factory", "%s: %d of 2 requests went through the factory's client", at, len(got))
			continue
		}
		for _, g := range got {
			p07request(r, s, sig, at, g, "http://h"+s.Endpoint()+"/"+sig.Name, rt.Msgpack, nil, 1, in)
		}
	}
	n = 0
	c := gotsrpc.NewClient()
	_ = c.Call(context.Background(), "http://h", "/ep", "M", []interface{}{"a", 1}, nil)
	_ = c.Call(context.Background(), "http://h", "/ep", "M", nil, nil)
	if n != 1 || len(last.reqs) != 2 || last.reqs[0].req.URL.String() != "http://h/ep/M" {
		r.Violate("factory", "gotsrpc.NewClient: %d clients of the factory", n)
	}
}
