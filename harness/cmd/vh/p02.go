package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"verifharness/rt"
)

func init() { checks["P02"] = p02 }

func p02(r *rt.Report) {
	r.Rule = "each case is one request put to a proxy; distinct by (service, HTTP method, path, content type, body)"
	r.Assume = []string{"a body is taken as undecodable when it is a strict prefix of an encoded argument list, fails to be read, holds a value of an unmistakably other kind or out of range, or no list at all; other mutations must only be answered consistently (200 with one execution or 400 with none)"}
	var wg sync.WaitGroup
	for _, s := range services {
		for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
			wg.Add(1)
			go func(s *rt.Service, w rt.Wire) {
				defer wg.Done()
				d := &p02rig{r: r, s: s, w: w, rc: &recorder{}, rnd: rand.New(rand.NewSource(r.Seed))}
				d.h = s.Default(d.rc.hook)
				d.verbs()
				d.names()
				d.bodies()
			}(s, w)
		}
	}
	wg.Wait()
	p02server(r)
	p02large(r)
	r.AtLeast("rejected requests", 5000)
	r.AtLeast("executed requests", 500)
}

type p02rig struct {
	r   *rt.Report
	s   *rt.Service
	w   rt.Wire
	rc  *recorder
	h   http.Handler
	rnd *rand.Rand
}

// probe puts one request and checks status and executions. want 0 asks for
// consistency only.
func (d *p02rig) probe(what, verb, path, ctype string, body io.Reader, want int, show []byte) {
	d.rc.take()
	a := put(d.h, verb, path, ctype, body)
	es := d.rc.take()
	key := fmt.Sprintf("%s: %s", d.w, what)
	desc := func() string {
		if len(show) > 200 {
			show = show[:200]
		}
		return fmt.Sprintf("%s %s %s (%s) body %q", what, verb, path, ctype, show)
	}
	d.r.Case(d.s.Name + verb + path + ctype + string(show))
	d.r.See("statuses", fmt.Sprint(a.status))
	switch {
	case a.panicky != "":
		d.r.Violate(key, "%s\n    panicked: %s", desc(), a.panicky)
		return
	case want == 0 && a.status == 200:
		if len(es) != 1 {
			d.r.Violate(key, "%s\n    200 with %d executions", desc(), len(es))
		}
	case want == 0:
		if a.status != 400 || len(es) != 0 {
			d.r.Violate(key, "%s\n    status %d with %d executions", desc(), a.status, len(es))
		}
	case want == 2000:
		if a.status != 200 || len(es) != 1 {
			d.r.Violate(key, "%s\n    status %d with %d executions, wanted 200 with one", desc(), a.status, len(es))
		}
	default:
		if a.status != want || len(es) != 0 {
			d.r.Violate(key, "%s\n    status %d with %d executions %v, wanted %d and none", desc(), a.status, len(es), names(es), want)
		}
	}
	if len(es) == 0 {
		d.r.Count("rejected requests", 1)
	} else {
		d.r.Count("executed requests", 1)
	}
}

func names(es []event) (n []string) {
	for _, e := range es {
		n = append(n, e.svc+"."+e.method)
	}
	return
}

func (d *p02rig) valid(sig rt.Sig, seed int64) []byte {
	g := gen(seed, d.w)
	g.Big = false
	b, err := newTapper(d.s, d.w).body(sig.Name, values(g, sig.In))
	if err != nil {
		d.r.Violate(fmt.Sprintf("%s: encode", d.w), "%s.%s: arguments not encoded: %v", d.s.Name, sig.Name, err)
	}
	return b
}

func (d *p02rig) verbs() {
	ep := d.s.Endpoint()
	for i, sig := range d.s.Sigs() {
		body := d.valid(sig, d.r.Seed+int64(i))
		for _, ctype := range []string{ct(d.w), "", "text/plain"} {
			for _, verb := range []string{"OPTIONS", "GET", "HEAD", "PUT", "PATCH", "DELETE", "TRACE", "CONNECT", "post", "POSTX", "PROPFIND", "options"} {
				want := 405
				if verb == "OPTIONS" {
					want = 200
				}
				d.probe("verb "+verb, verb, ep+"/"+sig.Name, ctype, bytes.NewReader(body), want, body)
			}
		}
		d.probe("verb OPTIONS on an unknown method", "OPTIONS", ep+"/"+sig.Name+"X", ct(d.w), bytes.NewReader(body), 200, body)
		d.probe("verb GET on an unknown method", "GET", ep+"/"+sig.Name+"X", ct(d.w), bytes.NewReader(body), 405, body)
		if !sig.HasError && sig.Name != "HttpStatus" {
			d.probe("valid", "POST", ep+"/"+sig.Name, ct(d.w), bytes.NewReader(body), 2000, body)
		}
	}
}

func (d *p02rig) names() {
	ep := d.s.Endpoint()
	have := map[string]bool{}
	for _, m := range d.s.Methods {
		have[m] = true
	}
	var others []string
	for _, s := range services {
		others = append(others, s.Methods...)
	}
	for i, sig := range d.s.Sigs() {
		body := d.valid(sig, d.r.Seed+int64(i))
		n := sig.Name
		cands := []string{
			strings.ToLower(n), strings.ToUpper(n), strings.ToLower(n[:1]) + n[1:], n + "x", "x" + n, n + "/", "/" + n, n + "/x", "x/" + n, n + " ", " " + n, n + "\x00", n + "?", n + ".", n[:len(n)-1], n[1:], n + n, "", "/", ".", "..", "*",
			d.s.Name + "." + n, d.s.Name + "/" + n, d.s.Name + n, "../" + n, "./" + n, ep + "/" + n, n + "\n", "ServeHTTP", "EndPoint", "service", "%4eop", "ünï", strings.Repeat("A", 5000), n + ep,
		}
		for k := 0; k < 6; k++ {
			cands = append(cands, others[d.rnd.Intn(len(others))])
		}
		for _, c := range cands {
			if have[c] {
				continue
			}
			d.probe("unknown name", "POST", ep+"/"+c, ct(d.w), bytes.NewReader(body), 404, body)
			if c != "" && !have[strings.TrimPrefix(strings.TrimPrefix("/"+c, ep), "/")] {
				d.probe("no endpoint", "POST", "/"+c, ct(d.w), bytes.NewReader(body), 404, body)
			}
		}
		for _, p := range []string{"/" + n, ep + n, strings.ToUpper(ep) + "/" + n, ep[:len(ep)-1] + "/" + n, ep + "x/" + n, "/x" + ep + "/" + n, ep + "/" + ep + "/" + n, ep + "//" + n, ep, "/", ep + "/"} {
			d.probe("other path", "POST", p, ct(d.w), bytes.NewReader(body), 404, body)
		}
		// any body of any size is no way around that
		d.probe("unknown name", "POST", ep+"/"+n+"Y", ct(d.w), bytes.NewReader(nil), 404, nil)
		d.probe("unknown name", "POST", ep+"/"+n+"Y", "", bytes.NewReader(bytes.Repeat([]byte("x"), 1<<16)), 404, nil)
	}
}

func (d *p02rig) bodies() {
	ep := d.s.Endpoint()
	n := d.r.N(3, 40)
	for i, sig := range d.s.Sigs() {
		if len(sig.In) == 0 || sig.HasError || sig.Name == "HttpStatus" {
			continue
		}
		path := ep + "/" + sig.Name
		for k := 0; k < n; k++ {
			body := d.valid(sig, d.r.Seed*1e6+int64(i)*1e3+int64(k))
			// truncations
			step := 1
			if max := d.r.N(24, 200); len(body) > max {
				step = len(body) / max
			}
			for cut := d.rnd.Intn(step); cut < len(body); cut += step {
				d.probe("truncated", "POST", path, ct(d.w), bytes.NewReader(body[:cut]), 400, body[:cut])
				d.probe("read error", "POST", path, ct(d.w), &brokenReader{body[:cut:cut], io.ErrUnexpectedEOF}, 400, body[:cut])
			}
			d.probe("truncated", "POST", path, ct(d.w), bytes.NewReader(body[:len(body)-1]), 400, body[:len(body)-1])
			d.probe("read error", "POST", path, ct(d.w), &brokenReader{nil, os.ErrClosed}, 400, nil)
			d.probe("empty", "POST", path, ct(d.w), bytes.NewReader(nil), 400, nil)
			// mutations
			for m := d.r.N(10, 120); m > 0; m-- {
				b := bytes.Clone(body)
				for c := 1 + d.rnd.Intn(3); c > 0 && len(b) > 0; c-- {
					p := d.rnd.Intn(len(b))
					switch d.rnd.Intn(6) {
					case 0:
						b[p] ^= 1 << d.rnd.Intn(8)
					case 1:
						b[p] = byte(d.rnd.Intn(256))
					case 2:
						b = append(b[:p], b[p+1:]...)
					case 3:
						b = append(b[:p], append([]byte{byte(d.rnd.Intn(256))}, b[p:]...)...)
					case 4:
						q := p + d.rnd.Intn(len(b)-p)
						b = append(b[:q], b[p:]...)
					default:
						b[p] = []byte{0xc0, 0xc1, 0xdc, 0xdd, 0xde, 0xdf, 0xc6, 0xc9, 0xdb, 0xff, 0x90, '[', '{', '"', '-', '.', 'e', 'n', 't', '\\', ',', ':', 0}[d.rnd.Intn(23)]
					}
				}
				d.probe("mutated", "POST", path, ct(d.w), bytes.NewReader(b), 0, b)
			}
			// a body of the other encoding, other content types
			other := ctMsgpack
			if d.w == rt.Msgpack {
				other = ctJSON
			}
			d.probe("other encoding", "POST", path, other, bytes.NewReader(body), 0, body)
			d.probe("other encoding", "POST", path, "application/x-www-form-urlencoded", bytes.NewReader(body), 0, body)
		}
		// wrong kinds
		for ai, t := range sig.In {
			for _, wrong := range wrongFor(t, d.w) {
				b, ok := d.with(sig, ai, wrong)
				if ok {
					d.probe("wrong kind for "+kindOf(t), "POST", path, ct(d.w), bytes.NewReader(b), 400, b)
				}
			}
		}
		for _, b := range noLists(d.w) {
			d.probe("no list", "POST", path, ct(d.w), bytes.NewReader(b), 400, b)
		}
		for _, b := range bombs(d.w) {
			d.probe("bomb", "POST", path, ct(d.w), bytes.NewReader(b), 0, b)
		}
		for k := 0; k < 20; k++ {
			b := make([]byte, d.rnd.Intn(60))
			d.rnd.Read(b)
			d.probe("random bytes", "POST", path, ct(d.w), bytes.NewReader(b), 0, b)
		}
		// still alive and well
		body := d.valid(sig, d.r.Seed)
		d.probe("valid", "POST", path, ct(d.w), bytes.NewReader(body), 2000, body)
	}
}

func kindOf(t reflect.Type) string {
	if t.String() == "time.Time" || t.String() == "*time.Time" {
		return "time"
	}
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Kind().String()
}

// with encodes the call with argument ai replaced by the given encoded value.
func (d *p02rig) with(sig rt.Sig, ai int, wrong []byte) ([]byte, bool) {
	var parts [][]byte
	tp := newTapper(d.s, d.w)
	g := gen(1, d.w)
	g.Big = false
	b, err := tp.body(sig.Name, values(g, sig.In))
	if err != nil {
		return nil, false
	}
	parts, ok := split(d.w, b)
	if !ok || len(parts) != len(sig.In) {
		d.r.Broken("cannot split %q", b)
		return nil, false
	}
	parts[ai] = wrong
	return join(d.w, parts), true
}

func wrongFor(t reflect.Type, w rt.Wire) (ws [][]byte) {
	if t.String() == "time.Time" {
		if w == rt.JSON {
			return [][]byte{[]byte(`{"a":1}`), []byte(`[1]`), []byte(`true`), []byte(`"abc"`)}
		}
		return [][]byte{{0xa1, 'x'}, {0xc3}, {0x81, 0xa1, 'a', 1}}
	}
	if t.Kind() == reflect.Ptr {
		return wrongFor(t.Elem(), w)
	}
	js := func(s ...string) {
		if w == rt.JSON {
			for _, x := range s {
				ws = append(ws, []byte(x))
			}
		}
	}
	mp := func(b ...[]byte) {
		if w == rt.Msgpack {
			ws = append(ws, b...)
		}
	}
	mstr, mtrue, mmap, mint, marr := []byte{0xa3, 'a', 'b', 'c'}, []byte{0xc3}, []byte{0x81, 0xa1, 'a', 1}, []byte{5}, []byte{0x91, 1}
	switch t.Kind() {
	case reflect.Bool:
		js(`"abc"`, `5`, `{"a":1}`, `[1]`)
		mp(mstr, mint, mmap, marr)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		js(`"abc"`, `{"a":1}`, `[1]`, `1.5`, `99999999999999999999999999`)
		mp(mstr, mtrue, mmap, marr)
		switch t.Kind() {
		case reflect.Int8:
			js(`128`, `-129`)
			mp([]byte{0xcd, 0x01, 0x00}, []byte{0xd1, 0xff, 0x00})
		case reflect.Uint8:
			js(`256`, `-1`)
			mp([]byte{0xcd, 0x01, 0x00}, []byte{0xff})
		case reflect.Int16:
			js(`32768`)
			mp([]byte{0xce, 0, 1, 0, 0})
		case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			js(`-1`)
			mp([]byte{0xff})
		case reflect.Int32:
			js(`2147483648`)
			mp([]byte{0xce, 0xff, 0xff, 0xff, 0xff})
		}
	case reflect.Float32, reflect.Float64:
		js(`"abc"`, `{"a":1}`, `[1]`, `tru`)
		mp(mstr, mtrue, mmap, marr)
	case reflect.String:
		js(`{"a":1}`, `[1]`)
		mp(mmap) // the codec takes an array of small numbers for a string
	case reflect.Slice:
		js(`5`, `true`)
		mp(mint, mtrue)
	case reflect.Map:
		js(`5`, `true`, `"abc"`)
		mp(mint, mtrue, mstr)
	case reflect.Struct:
		js(`5`, `true`, `"abc"`)
		mp(mint, mtrue, mstr)
	}
	return
}

func noLists(w rt.Wire) [][]byte {
	if w == rt.JSON {
		return [][]byte{[]byte(`5`), []byte(`"abc"`), []byte(`true`), []byte(`nul`), []byte(`]`), []byte(`[`), []byte(`[,`), []byte("\xff\xfe"), []byte(` `), []byte(`<xml/>`)}
	}
	return [][]byte{{5}, {0xa3, 'a', 'b', 'c'}, {0xc3}, {0xc1}, {0xca, 0, 0, 0, 0}}
}

func bombs(w rt.Wire) [][]byte {
	if w == rt.JSON {
		return [][]byte{
			[]byte(strings.Repeat("[", 100000)), []byte(`[` + strings.Repeat(`{"a":`, 50000)), []byte(`["` + strings.Repeat("\\u0000", 20000)),
			[]byte(`[1` + strings.Repeat("0", 100000) + `]`), []byte(`[1e999999999]`), []byte(`["\ud800"]`), []byte(`[` + strings.Repeat(`1,`, 20000) + `1]`), []byte("[\"\xff\xff\"]"), []byte(`[-]`), []byte(`[1e]`), []byte(`[0x10]`),
		}
	}
	return [][]byte{
		{0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0xff, 0xff, 0xff, 0xff}, {0x91, 0xdb, 0xff, 0xff, 0xff, 0xff, 'a'}, {0x91, 0xc6, 0x7f, 0xff, 0xff, 0xff}, {0x91, 0xdd, 0x7f, 0xff, 0xff, 0xff, 1},
		{0x91, 0xdf, 0x7f, 0xff, 0xff, 0xff, 1}, bytes.Repeat([]byte{0x91}, 100000), {0x91, 0xc9, 0xff, 0xff, 0xff, 0xff, 1}, {0x91, 0xd6, 0xff, 1, 2, 3, 4}, {0x91, 0xc7, 12, 0xff, 1}, {0x91, 0xd4, 5, 1}, {0x91, 0xc1},
		append([]byte{0x91}, bytes.Repeat([]byte{0x81, 0xa1, 'a'}, 50000)...),
	}
}

// split cuts an encoded argument list into its elements.
func split(w rt.Wire, b []byte) (parts [][]byte, ok bool) {
	if w == rt.JSON {
		return splitJSON(b)
	}
	return splitMsgpack(b)
}

func join(w rt.Wire, parts [][]byte) []byte {
	if w == rt.JSON {
		return append(append([]byte("["), bytes.Join(parts, []byte(","))...), ']')
	}
	return append([]byte{0x90 | byte(len(parts))}, bytes.Join(parts, nil)...)
}

// p02server talks to a real server: broken connections must not take it down.
func p02server(r *rt.Report) {
	s := service("Service")
	g := newRig(s, nil)
	defer g.close()
	addr := g.srv.Listener.Addr().String()
	path := g.ep + "/String"
	raw := []string{
		"POST " + path + " HTTP/1.1\r\nHost: x\r\nContent-Type: " + ctJSON + "\r\nContent-Length: 100\r\n\r\n[\"abc\"",
		"POST " + path + " HTTP/1.1\r\nHost: x\r\nContent-Type: " + ctMsgpack + "\r\nContent-Length: 100\r\n\r\n\x91\xa5ab",
		"POST " + path + " HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n[\"abc\r\n",
		"POST " + path + " HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
		"POST " + path + " HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n",
		"GET " + path + " HTTP/1.1\r\nHost: x\r\n\r\n",
		"POST " + g.ep + "/Nope HTTP/1.1\r\nHost: x\r\nContent-Length: 100000\r\n\r\nabc",
		"POST  HTTP/1.1\r\n\r\n", "\x16\x03\x01", "",
	}
	for round := 0; round < r.N(10, 100); round++ {
		for _, m := range raw {
			c, err := net.DialTimeout("tcp", addr, 10*time.Second)
			if err != nil {
				r.Violate("server: refused", "the server does not accept connections any more: %v", err)
				return
			}
			_, _ = c.Write([]byte(m))
			if tc, ok := c.(*net.TCPConn); ok {
				_ = tc.CloseWrite()
			}
			_ = c.SetDeadline(time.Now().Add(30 * time.Second))
			resp, _ := io.ReadAll(c)
			c.Close()
			if bytes.Contains(resp, []byte(" 200 OK")) {
				r.Violate("server: broken request", "answered 200 to %q", m)
			}
			r.Case("raw" + m)
			r.Count("rejected requests", 1)
		}
		if es := g.rc.take(); len(es) != 0 {
			r.Violate("server: broken request", "broken requests executed %v", names(es))
		}
		p01call(r, s, g.client, g.rc, rt.JSON, s.Sig("String"), int64(round)*2)
	}
}
