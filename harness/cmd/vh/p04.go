package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"reflect"
	"strings"
	"sync"

	"verifharness/rt"
)

func init() { checks["P04"] = p04 }

type p04key struct{}

// p04 lets HTTP aware methods do things to the response and compares what the
// connection's client receives.
func p04(r *rt.Report) {
	r.Rule = "each case is one HTTP response of a method that takes the response writer, as received over a connection; distinct by (method, encoding, script, arguments)"
	var wg sync.WaitGroup
	for _, s := range services {
		for _, sig := range s.Sigs() {
			if !sig.HTTP {
				continue
			}
			for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
				wg.Add(1)
				go func(s *rt.Service, sig rt.Sig, w rt.Wire) {
					defer wg.Done()
					p04method(r, s, sig, w)
				}(s, sig, w)
			}
		}
	}
	wg.Wait()
	r.AtLeast("responses with a method's own status", 500)
	r.AtLeast("responses with results", 500)
}

type script struct {
	header  http.Header
	status  int // 0: not set
	chunks  []string
	how     string
	again   int // a second, superfluous status
	early   bool
	framing bool // it sets headers that describe the results
}

func p04script(rnd *rand.Rand) (sc script) {
	sc.header = http.Header{}
	for i := rnd.Intn(4); i > 0; i-- {
		k := []string{"X-One", "X-Two", "Set-Cookie", "Cache-Control", "Location", "Etag", "Vary"}[rnd.Intn(7)]
		for j := 1 + rnd.Intn(2); j > 0; j-- {
			sc.header.Add(k, fmt.Sprintf("v%d", rnd.Intn(1000)))
		}
	}
	switch rnd.Intn(4) {
	case 0:
	case 1:
		if rnd.Intn(2) == 0 {
			sc.status = 200
		}
	default:
		sc.status = []int{201, 202, 203, 204, 206, 300, 301, 302, 303, 304, 307, 400, 401, 402, 403, 404, 405, 409, 410, 418, 422, 429, 451, 500, 501, 502, 503, 504, 599}[rnd.Intn(29)]
		if sc.status != 204 && sc.status != 304 {
			for i := rnd.Intn(4); i > 0; i-- {
				sc.chunks = append(sc.chunks, strings.Repeat(string(rune('a'+rnd.Intn(26))), []int{0, 1, 10, 5000, 100000, 100000 * (1 + rnd.Intn(2)*rnd.Intn(2)*rnd.Intn(25))}[rnd.Intn(6)]))
			}
			if rnd.Intn(4) == 0 {
				sc.header.Set("Content-Type", "text/x-own")
			}
			if rnd.Intn(6) == 0 {
				sc.how = []string{"error", "redirect", "notfound"}[rnd.Intn(3)]
				sc.chunks = nil
			}
		}
	}
	if sc.how == "" && sc.status != 0 && rnd.Intn(4) == 0 {
		sc.again = []int{200, 500, 204, 200}[rnd.Intn(4)]
	}
	sc.early = rnd.Intn(6) == 0
	sc.framing = (sc.status == 0 || sc.status == 200) && rnd.Intn(3) == 0
	return
}

func (sc script) String() string {
	n := 0
	for _, c := range sc.chunks {
		n += len(c)
	}
	return fmt.Sprintf("header %v status %d %s writes %d (%d bytes) then status %d, early hints %v, sets Content-Type and Content-Length %v", sc.header, sc.status, sc.how, len(sc.chunks), n, sc.again, sc.early, sc.framing)
}

// run plays the script on w and tells the status and body it stands for.
func (sc script) run(w http.ResponseWriter, req *http.Request) {
	for k, vs := range sc.header {
		for _, v := range vs {
			w.Header().Add(k, v)
		}
	}
	if sc.framing {
		w.Header().Set("Content-Type", "text/plain")
		w.Header().Set("Content-Length", "1")
	}
	if sc.early {
		w.WriteHeader(http.StatusEarlyHints)
	}
	switch sc.how {
	case "error":
		http.Error(w, "own error", sc.status)
		return
	case "notfound":
		http.NotFound(w, req)
		return
	case "redirect":
		http.Redirect(w, req, "/elsewhere", http.StatusFound)
		return
	}
	if sc.status != 0 {
		w.WriteHeader(sc.status)
	}
	for _, c := range sc.chunks {
		_, _ = w.Write([]byte(c))
	}
	if sc.again != 0 {
		w.WriteHeader(sc.again)
	}
}

func (sc script) expect() (int, string) {
	switch sc.how {
	case "error":
		return sc.status, "own error\n"
	case "notfound":
		return 404, "404 page not found\n"
	case "redirect":
		return 302, ""
	}
	return sc.status, strings.Join(sc.chunks, "")
}

func p04method(r *rt.Report, s *rt.Service, sig rt.Sig, w rt.Wire) {
	rc := &recorder{}
	h := s.Default(rc.hook)
	type served struct {
		id     int
		remote string
		uri    string
	}
	var current served
	srv := newServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		current.remote, current.uri = req.RemoteAddr, req.RequestURI
		ctx := context.WithValue(req.Context(), p04key{}, current.id)
		h.ServeHTTP(rw, req.WithContext(ctx))
	}))
	srv.Config.ErrorLog = discardLog
	defer srv.Close()
	client := srv.Client()
	client.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
	rnd := rand.New(rand.NewSource(r.Seed*77 + int64(len(sig.Name))))
	key := fmt.Sprintf("%s.%s:%s", s.Name, sig.Name, w)
	for i := r.N(150, 4000); i > 0; i-- {
		seed := r.Seed*1e6 + int64(i)
		g := gen(seed, w)
		g.Big = false
		in, out := values(g, sig.In), values(g, sig.Out)
		body, err := newTapper(s, w).body(sig.Name, in)
		if body == nil && len(sig.In) > 0 {
			r.Violate(key, "%s: arguments not encoded: %v", key, err)
			return
		}
		sc := p04script(rnd)
		token := fmt.Sprintf("t%d", rnd.Int63())
		query := fmt.Sprintf("q=%d", rnd.Intn(100))
		current.id = i
		show := func() string { return fmt.Sprintf("%s over %s: %s", key, w, sc) }
		var seen string
		rc.mu.Lock()
		rc.rets = ifaces(out)
		rc.on = func(e event) {
			switch {
			case e.r == nil || e.w == nil:
				seen = "request or response writer nil"
				return
			case e.r.Context().Value(p04key{}) != i:
				seen = "the context is not the request's"
			case e.r.Header.Get("X-Token") != token || len(e.r.Header.Values("X-Multi")) != 2:
				seen = fmt.Sprintf("the headers are not the request's: %v", e.r.Header)
			case e.r.RemoteAddr != current.remote || e.r.RequestURI != current.uri || e.r.Method != "POST" || e.r.URL.RawQuery != query || e.r.ContentLength != int64(len(body)):
				seen = "it is another request"
			}
			sc.run(e.w, e.r)
		}
		rc.mu.Unlock()
		rc.take()
		req, _ := http.NewRequest("POST", srv.URL+s.Endpoint()+"/"+sig.Name+"?"+query, bytes.NewReader(body))
		req.Header.Set("Content-Type", ct(w))
		req.Header.Set("X-Token", token)
		req.Header.Add("X-Multi", "a")
		req.Header.Add("X-Multi", "b")
		resp, err := client.Do(req)
		if err != nil {
			r.Violate(key, "%s: %v", show(), err)
			continue
		}
		got, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			r.Violate(key, "%s: reading the response: %v", show(), err)
			continue
		}
		es := rc.take()
		if len(es) != 1 || es[0].method != sig.Name {
			r.Violate(key, "%s: executed %v", show(), names(es))
			continue
		}
		if seen != "" {
			r.Violate(key, "%s: the method saw: %s", show(), seen)
			continue
		}
		for k, t := range sig.In {
			if d := rt.DiffV(w, in[k], typed(t, es[0].args[k])); d != "" {
				r.Violate(key, "%s: argument %d: %s", show(), k, d)
			}
		}
		for k, vs := range sc.header {
			if k == "Content-Type" && sc.how != "" || k == "Location" && sc.how == "redirect" {
				continue // set by what was called
			}
			if sc.how == "error" || sc.how == "notfound" {
				if k == "Cache-Control" || k == "Etag" { // http.Error removes them
					continue
				}
			}
			if !reflect.DeepEqual(resp.Header.Values(k), vs) {
				r.Violate(key, "%s: header %s is %q, the method set %q", show(), k, resp.Header.Values(k), vs)
			}
		}
		status, want := sc.expect()
		if status != 0 && status != 200 {
			if resp.StatusCode != status || !bytes.Equal(got, []byte(want)) {
				r.Violate(key, "%s: the client received status %d and %q, the method wrote status %d and %q", show(), resp.StatusCode, clip(got), status, clip([]byte(want)))
			}
			r.Count("responses with a method's own status", 1)
			r.See("statuses", fmt.Sprint(status))
		} else {
			if !sig.HasError {
				p03reply(r, s, sig, ct(w), w, resp.StatusCode, resp.Header, got, out)
			} else if parts, ok := split(w, got); !ok || resp.StatusCode != 200 || len(parts) != len(sig.Out) {
				r.Violate(key, "%s: status %d with %q for %d results", show(), resp.StatusCode, clip(got), len(sig.Out))
			}
			r.Count("responses with results", 1)
		}
		r.Case(key + show() + string(body))
	}
}
