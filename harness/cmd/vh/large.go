package main

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"time"

	"verifharness/fx"
	"verifharness/rt"
)

// largeSizes lie on both sides of the limits programs commonly set.
func largeSizes(r *rt.Report) []int {
	n := []int{1<<16 - 1, 1<<16 + 1, 1 << 20, 4<<20 + 1, 10<<20 + 1, 33<<20 + 7}
	if r.Thorough {
		n = append(n, 1<<15, 1<<18+1, 2<<20+1, 8<<20+1, 16<<20+1, 65<<20)
	}
	return n
}

func largeString(n int) string {
	b := bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]
	copy(b[n-4:], "last")
	return string(b)
}

// deepRec nests a recursive type n levels deep.
func deepTree(n int) *fx.Tree {
	var t *fx.Tree
	for i := 0; i < n; i++ {
		x := &fx.Tree{}
		v := reflect.ValueOf(x).Elem()
		for k := 0; k < v.NumField(); k++ {
			if f := v.Field(k); t != nil && f.CanSet() && f.Type() == reflect.TypeOf(t) {
				f.Set(reflect.ValueOf(t))
				break
			} else if t != nil && f.CanSet() && f.Type() == reflect.TypeOf([]*fx.Tree{}) {
				f.Set(reflect.ValueOf([]*fx.Tree{t}))
				break
			}
		}
		t = x
	}
	return t
}

// p01large sends values larger, longer and deeper than random ones.
func p01large(r *rt.Report) {
	g := newRig(service("Service"), nil)
	defer g.close()
	c := g.client.(fx.ServiceGoTSRPCClient)
	ctx := context.Background()
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		g.gc.SetClientEncoding(enc(w))
		check := func(what string, want, got interface{}, err error) {
			key := fmt.Sprintf("large: %s over %s", what, w)
			es := g.rc.take()
			r.Case(key)
			switch {
			case err != nil:
				r.Violate(key, "client error %.300s", err.Error())
			case len(es) != 1:
				r.Violate(key, "executed %d times", len(es))
			case !reflect.DeepEqual(es[0].args[0], want):
				r.Violate(key, "the argument arrived differently")
			case !reflect.DeepEqual(got, want):
				r.Violate(key, "the result arrived differently")
			default:
				r.Count("large values compared", 2)
				r.Count("executions observed", 1)
			}
		}
		for _, n := range largeSizes(r) {
			s := largeString(n)
			g.rc.take()
			g.rc.set([]interface{}{s})
			got, err := c.String(ctx, s)
			check(fmt.Sprintf("a string of %d bytes", n), s, got, err)
			b := []byte(s)
			g.rc.set([]interface{}{b})
			gotb, err := c.Bytes(ctx, b)
			check(fmt.Sprintf("%d bytes", n), b, gotb, err)
		}
		for _, n := range []int{1<<10 + 1, 1<<15 + 1, 1<<16 - 1, 1<<16 + 1, 300_000} {
			ints, strs, m := make([]int, n), make([]string, n), make(map[string]int, n)
			for i := range ints {
				ints[i], strs[i] = i*7, fmt.Sprint(i)
				m[strs[i]] = i
			}
			g.rc.set([]interface{}{ints})
			goti, err := c.Ints(ctx, ints)
			check(fmt.Sprintf("%d integers", n), ints, goti, err)
			g.rc.set([]interface{}{strs})
			gots, err := c.Strings(ctx, strs)
			check(fmt.Sprintf("%d strings", n), strs, gots, err)
			g.rc.set([]interface{}{m})
			gotm, err := c.MapSI(ctx, m)
			check(fmt.Sprintf("a map of %d keys", n), m, gotm, err)
		}
		for _, n := range []int{20, 50, 100, 150} {
			t := deepTree(n)
			g.rc.set([]interface{}{t})
			got, err := c.Tree(ctx, t)
			depth := 0
			check(fmt.Sprintf("a tree %d deep", n), t, got, err)
			for v := reflect.ValueOf(got); v.IsValid() && v.Kind() == reflect.Ptr && !v.IsNil(); depth++ {
				v = child(v.Elem())
			}
			if err == nil && depth != n {
				r.Broken("the deep tree is %d deep instead of %d", depth, n)
			}
		}
	}
	r.AtLeast("large values compared", 80)
}

func child(v reflect.Value) reflect.Value {
	for k := 0; k < v.NumField(); k++ {
		switch f := v.Field(k); {
		case f.Type() == reflect.PtrTo(v.Type()):
			return f
		case f.Type() == reflect.SliceOf(reflect.PtrTo(v.Type())) && f.Len() > 0:
			return f.Index(0)
		}
	}
	return reflect.Value{}
}

// p02large: a body is decodable however long it is.
func p02large(r *rt.Report) {
	s := service("Service")
	rc := &recorder{}
	h := s.Default(rc.hook)
	srv := newServer(h)
	defer srv.Close()
	hc := srv.Client()
	hc.Timeout = time.Minute
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		for _, n := range largeSizes(r) {
			str := largeString(n)
			body, err := newTapper(s, w).body("String", []reflect.Value{reflect.ValueOf(str)})
			if err != nil {
				r.Violate(w.String()+": large", "a string of %d bytes was not encoded: %v", n, err)
				continue
			}
			for k := 0; k < 3; k++ {
				want, b := 200, body
				if k == 2 { // the end is missing
					want, b = 400, body[:len(body)-1]
				}
				rc.take()
				rc.set([]interface{}{"x"})
				var status int
				if k == 0 {
					status = put(h, "POST", s.Endpoint()+"/String", ct(w), bytes.NewReader(b)).status
				} else {
					resp, err := hc.Post(srv.URL+s.Endpoint()+"/String", ct(w), bytes.NewReader(b))
					if err != nil {
						r.Violate(w.String()+": large", "a body of %d bytes: %v", len(b), err)
						continue
					}
					resp.Body.Close()
					status = resp.StatusCode
				}
				es := rc.take()
				if status != want || want == 200 && (len(es) != 1 || es[0].args[0] != str) || want != 200 && len(es) != 0 {
					r.Violate(w.String()+": large", "a body of %d of %d bytes: status %d, wanted %d; %d executions, or with another argument", len(b), len(body), status, want, len(es))
				}
				r.Count("large bodies", 1)
				r.Case(fmt.Sprint("large", w, n, k))
			}
		}
	}
	r.AtLeast("large bodies", 30)
}

// p03large: replies are framed completely however long they are.
func p03large(r *rt.Report) {
	s := service("Service")
	rc := &recorder{}
	srv := newServer(s.Default(rc.hook))
	defer srv.Close()
	sig := s.Sig("String")
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		body, _ := newTapper(s, w).body("String", []reflect.Value{reflect.ValueOf("x")})
		for _, n := range largeSizes(r) {
			out := largeString(n)
			rc.set([]interface{}{out})
			resp, err := srv.Client().Post(srv.URL+s.Endpoint()+"/String", ct(w), bytes.NewReader(body))
			if err != nil {
				r.Violate("framing: "+w.String(), "a reply with a string of %d bytes: %v", n, err)
				continue
			}
			reply := &bytes.Buffer{}
			_, err = reply.ReadFrom(resp.Body)
			resp.Body.Close()
			if err != nil || resp.TransferEncoding != nil {
				r.Violate("framing: "+w.String(), "a reply with a string of %d bytes: %v, transfer encoding %v", n, err, resp.TransferEncoding)
				continue
			}
			p03reply(r, s, sig, ct(w), w, resp.StatusCode, resp.Header, reply.Bytes(), []reflect.Value{reflect.ValueOf(out)})
			r.Count("large replies", 1)
		}
	}
	r.AtLeast("large replies", 10)
}

// p06large: the whole body of a failed call is reported.
func p06large(r *rt.Report) {
	s := service("Service")
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		d := &p06rig{r: r, s: s, w: w}
		var b []byte
		ft := &fakeTransport{}
		client, gc := s.Client("http://fake", s.Endpoint(), &http.Client{Transport: ft})
		gc.SetClientEncoding(enc(w))
		for _, n := range largeSizes(r) {
			b = []byte(largeString(n))
			for _, status := range []int{400, 404, 500, 503} {
				ft.resp = func(*http.Request) (*http.Response, error) {
					return response(status, "text/plain", bytes.NewReader(b)), nil
				}
				_, err := call(client, context.Background(), "String", []reflect.Value{reflect.ValueOf("x")})
				d.status(fmt.Sprintf("%d with %d bytes", status, n), s.Sig("String"), err, status, b)
				r.Count("large error bodies", 1)
			}
		}
		// a reply that breaks off late
		for _, n := range largeSizes(r) {
			full := append([]byte("\x91\xdb"), 0, 0, 0, 0)
			full[2], full[3], full[4], full[5] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
			full = append(full, largeString(n)...)
			if w == rt.JSON {
				full = []byte(`["` + largeString(n) + `"]`)
			}
			for _, cut := range []int{0, 1} {
				ft.resp = func(*http.Request) (*http.Response, error) {
					return response(200, ct(w), bytes.NewReader(full[:len(full)-cut])), nil
				}
				rets, err := call(client, context.Background(), "String", []reflect.Value{reflect.ValueOf("x")})
				switch {
				case cut == 0 && (err != nil || rets[0].String() != largeString(n)):
					r.Violate(w.String()+": completed", "a complete reply of %d bytes: %v, or another result", len(full), err)
				case cut == 1:
					d.failed("truncated reply", fmt.Sprintf("%d of %d", len(full)-1, len(full)), s.Sig("String"), err)
				}
			}
		}
	}
	r.AtLeast("large error bodies", 40)
}

// p05deep sends chains longer than random ones and relays them often.
func p05deep(r *rt.Report) {
	d := newP05(r, 99)
	defer d.close()
	short := func(g *rt.Gen, e error) error {
		for {
			if x := p05wrap(g, e); len(x.Error()) < len(e.Error())+200 {
				return x
			}
		}
	}
	for _, n := range []int{6, 9, 12, 17, 25, 33, 40, 65, 101} {
		for k := 0; k < r.N(3, 30); k++ {
			g := gen(r.Seed*1e6+int64(n)*1e3+int64(k), rt.Msgpack)
			g.Big = false
			e := p05leaf(g)
			if strings.Count(e.Error(), "")-1 > 2000 {
				e = sPlain
			}
			for i := 0; i < n; i++ {
				e = short(g, e)
			}
			got, cerr := send(d.one, d.cone, g.R.Intn(8), e)
			d.compare(fmt.Sprintf("%d links", n), e, got, cerr)
			r.Count("long chains", 1)
		}
	}
	for k := 0; k < r.N(20, 300); k++ { // many hops
		g := gen(r.Seed*1e6+500_000+int64(k), rt.Msgpack)
		g.Big = false
		e := p05leaf(g)
		for i := g.R.Intn(3); i > 0; i-- {
			e = short(g, e)
		}
		got := e
		for hop := 1; hop <= 8; hop++ {
			var cerr error
			got, cerr = send(d.one, d.cone, g.R.Intn(8), got)
			d.compare(fmt.Sprintf("%d hops", hop), e, got, cerr)
			if got == nil || cerr != nil {
				break
			}
			r.Count("hops of relayed errors", 1)
		}
	}
	r.AtLeast("long chains", 20)
	r.AtLeast("hops of relayed errors", 100)
}

// large: GoRPC calls with values larger than random ones.
func (g *rpcRig) large() {
	r := g.r
	if g.s.Name != "RPC" {
		return
	}
	for _, m := range []string{"String", "Bytes", "Strings"} {
		sig := g.s.Sig(m)
		for _, n := range largeSizes(r) {
			if n > 5<<20 && !r.Thorough || n > 1<<20 && m != "String" {
				continue
			}
			var x interface{} = largeString(n)
			switch m {
			case "Bytes":
				x = []byte(x.(string))
			case "Strings":
				l := make([]string, n/100)
				for i := range l {
					l[i] = fmt.Sprint("string ", i)
				}
				x = l
			}
			var args []interface{}
			g.set(func(svc, method string, w http.ResponseWriter, req *http.Request, a []interface{}) []interface{} {
				args = a
				return []interface{}{x}
			})
			g.take()
			rets, err := rpcCall(g.client, m, []reflect.Value{reflect.ValueOf(x)})
			stats, execs := g.take()
			at := fmt.Sprintf("%s, a value of about %d bytes", g.name(sig), n)
			switch {
			case err != nil:
				r.Violate("gorpc call", "%s: %v", at, err)
			case len(execs) != 1 || execs[m] != 1:
				r.Violate("gorpc executions", "%s: executed %v", at, execs)
			case !reflect.DeepEqual(args[0], x) || !reflect.DeepEqual(rets[0].Interface(), x):
				r.Violate("gorpc values", "%s: arrived differently", at)
			}
			g.checkStats(at, stats, map[string]int{m: 1}, 0)
			r.Count("large values compared", 1)
			r.Case(at)
		}
	}
}
