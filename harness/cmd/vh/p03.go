package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ugorji/go/codec"

	"verifharness/fx"
	"verifharness/rt"
)

func init() { checks["P03"] = p03 }

func p03(r *rt.Report) {
	r.Rule = "each case is one reply read from the wire (handler directly, or raw bytes of a server's connection) by readers independent of gotsrpc and its codec; distinct by (service, method, request content type, reply body)"
	var wg sync.WaitGroup
	for _, s := range services {
		wg.Add(1)
		go func(s *rt.Service) {
			defer wg.Done()
			p03service(r, s)
		}(s)
	}
	wg.Wait()
	p03unencodable(r)
	p03large(r)
	p03odd(r)
	r.AtLeast("replies", 2000)
	r.AtLeast("replies refused as not encodable", 150)
}

// content types and the encoding they name
var p03types = []struct {
	ct string
	w  rt.Wire
}{
	{ctMsgpack, rt.Msgpack},
	{ctJSON, rt.JSON},
	{"", rt.JSON},
	{"application/json", rt.JSON},
	{"text/plain", rt.JSON},
	{"text/plain; charset=utf-8", rt.JSON},
	{"application/x-www-form-urlencoded", rt.JSON},
	{"*/*", rt.JSON},
	{"ünïcode", rt.JSON},
	{"application/octet-stream", rt.JSON},
	{"application/msgpack", rt.JSON},
	{"application/msgpack;charset=utf-8", rt.JSON},
	{"Application/MsgPack; charset=UTF-8", rt.JSON},
	{"application/msgpack; charset=utf-8; v=1", rt.JSON},
	{"application/x-msgpack", rt.JSON},
	{"application/json; charset=iso-8859-1", rt.JSON},
	{"text/html, application/msgpack; charset=utf-8", rt.JSON},
}

func p03service(r *rt.Report, s *rt.Service) {
	rc := &recorder{}
	h := s.Default(rc.hook)
	srv := newServer(h)
	defer srv.Close()
	n := r.N(4, 80)
	for mi, sig := range s.Sigs() {
		if sig.HasError {
			continue
		}
		for ti, t := range p03types {
			if !plain(s, sig, t.w) {
				continue
			}
			k := n
			if ti > 1 {
				k = (n + 3) / 4
			}
			for i := 0; i < k; i++ {
				seed := r.Seed*1e9 + int64(mi)*1e5 + int64(ti)*1e3 + int64(i)
				g := gen(seed, t.w)
				in, out := values(g, sig.In), values(g, sig.Out)
				body, err := newTapper(s, t.w).body(sig.Name, in)
				if err != nil && !errors.Is(err, errTapped) {
					r.Violate("encode "+t.w.String(), "%s.%s: arguments not encoded: %v", s.Name, sig.Name, err)
					continue
				}
				rc.take()
				rc.set(ifaces(out))
				var status int
				var header http.Header
				var reply []byte
				opposite := ctMsgpack
				if t.w == rt.Msgpack {
					opposite = ctJSON
				}
				mk := func(base string) *http.Request {
					req, _ := http.NewRequest("POST", base+s.Endpoint()+"/"+sig.Name, bytes.NewReader(body))
					if t.ct != "" {
						req.Header.Set("Content-Type", t.ct)
					}
					if i%2 == 0 { // only the content type decides
						req.Header.Set("Accept", opposite)
					}
					return req
				}
				if i%2 == 0 {
					a := serve(h, mk("http://direct"))
					if a.panicky != "" {
						r.Violate("panic", "%s.%s panicked: %s", s.Name, sig.Name, a.panicky)
						continue
					}
					status, header, reply = a.status, a.header, a.body
				} else {
					resp, err := srv.Client().Do(mk(srv.URL))
					if err != nil {
						r.Violate("framing: "+t.w.String(), "%s.%s over %q: %v", s.Name, sig.Name, t.ct, err)
						continue
					}
					status, header = resp.StatusCode, resp.Header
					reply, err = io.ReadAll(resp.Body)
					resp.Body.Close()
					if err != nil {
						r.Violate("framing: "+t.w.String(), "%s.%s over %q: reading the reply: %v", s.Name, sig.Name, t.ct, err)
						continue
					}
					if resp.TransferEncoding != nil {
						r.Violate("length: "+t.w.String(), "%s.%s over %q: transfer encoding %v instead of a content length", s.Name, sig.Name, t.ct, resp.TransferEncoding)
					}
				}
				p03reply(r, s, sig, t.ct, t.w, status, header, reply, out)
			}
		}
	}
}

func p03reply(r *rt.Report, s *rt.Service, sig rt.Sig, ctype string, w rt.Wire, status int, header http.Header, body []byte, out []reflect.Value) {
	at := fmt.Sprintf("%s.%s with content type %q", s.Name, sig.Name, ctype)
	key := s.Name + "." + sig.Name + ": " + w.String()
	if status != 200 {
		r.Violate(key, "%s: status %d %q", at, status, body)
		return
	}
	if got := header.Values("Content-Type"); len(got) != 1 || got[0] != ct(w) {
		r.Violate("type: "+w.String(), "%s: replied with Content-Type %q, wanted %q", at, got, ct(w))
	}
	if got := header.Values("Content-Length"); len(got) != 1 || got[0] != strconv.Itoa(len(body)) {
		r.Violate("length: "+w.String(), "%s: Content-Length %q for a body of %d bytes", at, got, len(body))
	}
	var parts [][]byte
	var ok bool
	if w == rt.JSON {
		var x interface{}
		if x, ok = decodeJSON(body); ok {
			_, ok = x.([]interface{})
		}
		if ok {
			parts, ok = splitJSON(body)
		}
	} else {
		parts, ok = splitMsgpack(body)
	}
	if !ok {
		r.Violate(key, "%s: the reply is not exactly one array: %q", at, clip(body))
		return
	}
	if len(parts) != len(sig.Out) {
		r.Violate(key, "%s: %d elements for %d results: %q", at, len(parts), len(sig.Out), clip(body))
		return
	}
	// elements in the results' order, where that can be told independently
	for i, p := range parts {
		bad := ""
		if w == rt.JSON {
			x, _ := decodeJSON(p)
			bad = jsonDiffers(out[i], x, "value")
		} else {
			bad = elementDiffers(w, p, out[i])
		}
		if bad != "" {
			r.Violate(key, "%s: element %d is %q: %s", at, i, clip(p), bad)
		}
	}
	r.Count("replies", 1)
	r.Count("elements", len(parts))
	r.See("content types asked with", ctype)
	r.Case(key + ctype + string(body))
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// elementDiffers compares an encoded element with a value of a basic kind.
func elementDiffers(w rt.Wire, p []byte, v reflect.Value) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice || v.Kind() == reflect.Map || v.Kind() == reflect.Interface {
		if v.IsNil() {
			if w == rt.JSON && string(p) != "null" || w == rt.Msgpack && string(p) != "\xc0" {
				return "wanted null"
			}
			return ""
		}
		if v.Kind() != reflect.Ptr {
			return ""
		}
		v = v.Elem()
	}
	if w == rt.Msgpack {
		switch v.Kind() {
		case reflect.String:
			if !bytes.HasSuffix(p, []byte(v.String())) || len(p) > len(v.String())+5 {
				return fmt.Sprintf("wanted string %q", v.String())
			}
		case reflect.Bool:
			if v.Bool() != (string(p) == "\xc3") {
				return fmt.Sprintf("wanted %v", v.Bool())
			}
		}
		return ""
	}
	switch v.Kind() {
	case reflect.String:
		var s string
		if err := json.Unmarshal(p, &s); err != nil || s != v.String() {
			return fmt.Sprintf("wanted string %q", v.String())
		}
	case reflect.Bool:
		if string(p) != strconv.FormatBool(v.Bool()) {
			return fmt.Sprintf("wanted %v", v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if string(p) != strconv.FormatInt(v.Int(), 10) {
			return fmt.Sprintf("wanted number %d", v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if string(p) != strconv.FormatUint(v.Uint(), 10) {
			return fmt.Sprintf("wanted number %d", v.Uint())
		}
	}
	return ""
}

// selfer encodes itself, which fails after some output.
type selfer struct{ how int }

func (f selfer) CodecEncodeSelf(e *codec.Encoder) {
	if f.how > 0 {
		e.MustEncode(strings.Repeat("s", f.how))
	}
	if f.how == 7 {
		panic("not encodable")
	}
	panic(errors.New("not encodable"))
}
func (f selfer) CodecDecodeSelf(*codec.Decoder) {}

type funcErr struct{ F complex128 }

func (f *funcErr) Error() string { return "func error" }

type withFunc struct {
	A string
	F complex128
	B string
}

// p03unencodable makes methods return what no encoding can express.
func p03unencodable(r *rt.Report) {
	s := service("Service")
	rc := &recorder{}
	h := s.Default(rc.hook)
	srv := newServer(h)
	defer srv.Close()
	big := strings.Repeat("x", 1<<17)
	bad := map[string]interface{}{
		"complex": complex(1, 2), "channel": make(chan<- int), "selfer": selfer{}, "half": selfer{5000}, "panicky": selfer{7}, "struct": withFunc{"a", complex(1, 2), "b"},
		"pointer": &withFunc{"a", complex(1, 2), "b"}, "slice": []complex128{1, 2i}, "map": map[string]complex128{"a": 2i}, "late": append(make([]interface{}, 3000), 2i),
	}
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		tp := newTapper(s, w)
		for name, x := range bad {
			for _, m := range []struct {
				method string
				ret    interface{}
			}{
				{"Any", x}, {"Anys", []interface{}{x}}, {"Anys", []interface{}{big, 1, "a", x, "b"}}, {"AnyMap", map[string]interface{}{"a": 1, "b": x}},
				{"AnyMap", map[string]interface{}{"a": []interface{}{big, x}}}, {"Anys", []interface{}{map[string]interface{}{"k": []interface{}{1, 2, x}}}},
				{"Err", &funcErr{complex(1, 2)}}, {"ErrAnd", nil},
			} {
				rets := []interface{}{m.ret}
				switch {
				case m.method == "ErrAnd":
					rets = []interface{}{big, &funcErr{complex(1, 2)}}
				}
				if strings.HasPrefix(m.method, "Err") && name != "complex" {
					continue
				}
				if codecTakes(w, rets) {
					r.See("odd", name+m.method+w.String())
					r.Count("odd results the codec takes", 1)
					continue
				}
				sig := s.Sig(m.method)
				g := gen(1, w)
				body, _ := tp.body(m.method, values(g, sig.In))
				rc.set(rets)
				for i := 0; i < 2; i++ {
					rc.take()
					var status, length int
					var reply []byte
					if i == 0 {
						a := put(h, "POST", s.Endpoint()+"/"+m.method, ct(w), bytes.NewReader(body))
						if a.panicky != "" {
							r.Violate("unencodable: panic", "%s returning %s over %s: panicked: %s", m.method, name, w, a.panicky)
							continue
						}
						status, reply, length = a.status, a.body, len(a.body)
						if l := a.header.Get("Content-Length"); l != "" {
							length, _ = strconv.Atoi(l)
						}
					} else {
						resp, err := srv.Client().Post(srv.URL+s.Endpoint()+"/"+m.method, ct(w), bytes.NewReader(body))
						if err != nil {
							r.Violate("unencodable", "%s returning %s over %s: %v", m.method, name, w, err)
							continue
						}
						status = resp.StatusCode
						reply, err = io.ReadAll(resp.Body)
						resp.Body.Close()
						length = len(reply)
						if err != nil {
							r.Violate("unencodable", "%s returning %s over %s: incomplete reply: %v", m.method, name, w, err)
						}
					}
					if status == 200 {
						r.Violate("unencodable", "%s returning %s over %s: replied 200 %q", m.method, name, w, clip(reply))
						continue
					}
					if status != 500 || length != len(reply) {
						r.Violate("unencodable", "%s returning %s over %s: status %d, %d bytes announced, body %q", m.method, name, w, status, length, clip(reply))
					}
					if len(reply) > 1000 {
						r.Violate("unencodable", "%s returning %s over %s: the 500 carries a partial reply", m.method, name, w)
					}
					if es := rc.take(); len(es) != 1 {
						r.Violate("unencodable", "%s returning %s over %s: executed %d times", m.method, name, w, len(es))
					}
					r.Count("replies refused as not encodable", 1)
					r.See("refused kinds", name+w.String())
					r.Case("unencodable" + name + m.method + w.String() + fmt.Sprint(len(reply)) + strconv.Itoa(i))
				}
			}
		}
	}
}

// codecTakes tells whether the codec itself can express the values.
func codecTakes(w rt.Wire, vs []interface{}) bool {
	var h codec.Handle = &codec.MsgpackHandle{}
	if w == rt.JSON {
		h = &codec.JsonHandle{}
	}
	var b []byte
	return codec.NewEncoderBytes(&b, h).Encode(vs) == nil
}

// p03odd returns values at the edge of what the encodings express: the reply is
// well-formed or a 500.
func p03odd(r *rt.Report) {
	s := service("Service")
	rc := &recorder{}
	h := s.Default(rc.hook)
	inf := math.Inf(1)
	for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
		for _, x := range []interface{}{
			math.NaN(), inf, -inf, float32(inf), []float64{1, math.NaN()}, "\xff\xfe", "a\x00\xc3", []byte{0, 255}, map[string]interface{}{"\xff": 1}, map[interface{}]interface{}{1: "a", "b": 2, true: 3},
			map[float64]int{1.5: 1, inf: 2}, map[bool]string{true: "x"}, map[[2]int]int{{1, 2}: 3}, map[fx.Leaf]int{{A: "x"}: 1}, [3]int{1, 2, 3}, struct{}{}, uint64(math.MaxUint64), int64(math.MinInt64), json.Number("12"), json.RawMessage(`{"a":1}`),
			time.Duration(5), new(interface{}), errors.New("as a value"), []error{errors.New("x")}, reflect.ValueOf(1), "\u2028</script>",
		} {
			for _, rets := range [][]interface{}{{x}, {[]interface{}{x, x}}, {map[string]interface{}{"k": x}}} {
				m := "Any"
				sig := s.Sig(m)
				body, _ := newTapper(s, w).body(m, values(gen(1, w), sig.In))
				rc.take()
				rc.set(rets)
				a := put(h, "POST", s.Endpoint()+"/"+m, ct(w), bytes.NewReader(body))
				at := fmt.Sprintf("%s returning %T %v over %s", m, x, x, w)
				switch {
				case a.panicky != "":
					r.Violate("odd: panic", "%s: panicked: %s", at, a.panicky)
				case a.status == 500:
					r.Count("odd results refused", 1)
				case a.status != 200:
					r.Violate("odd", "%s: status %d", at, a.status)
				default:
					parts, ok := split(w, a.body)
					if w == rt.JSON && !json.Valid(a.body) {
						ok = false
					}
					if !ok || len(parts) != 1 || a.header.Get("Content-Length") != strconv.Itoa(len(a.body)) {
						r.Violate(fmt.Sprintf("odd: %s %T", w, x), "%s: the reply is not exactly one array of one: %q", at, a.body)
					}
				}
				r.Count("odd results", 1)
				r.Case(at + string(a.body))
			}
		}
	}
}
