package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"net/http"
	"reflect"
	"strings"
	"time"

	"verifharness/rt"
)

func init() { checks["P10"] = p10 }

// p10 watches times on the JSON wire, both ways, and what is read back.
func p10(r *rt.Report) {
	r.Rule = "each case is one call over JSON whose times were compared, as raw wire integers with big integer arithmetic and as instants read back by service and client; distinct by (service, method, arguments, results)"
	r.Assume = []string{"instants whose milliseconds fit an int64", "times in interface{} places and as map keys are left to P01"}
	zones := []*time.Location{time.UTC, time.FixedZone("plus", 14*3600), time.FixedZone("odd", -(9*3600 + 17*60 + 30)), time.Local}
	old := time.Local
	defer func() { time.Local = old }()
	n := r.N(400, 12000)
	for _, s := range services {
		for mi, sig := range s.Sigs() {
			if sig.HasError || !hasTime(sig) {
				continue
			}
			k := n
			if s.Name != "Clock" {
				k = n / 20
			}
			rc := &recorder{}
			tap := &exchange{h: s.Default(rc.hook)}
			c, gc := s.Client("http://x", s.Endpoint(), &http.Client{Transport: tap})
			gc.SetClientEncoding(enc(rt.JSON))
			for i := 0; i < k; i++ {
				time.Local = zones[i%len(zones)]
				p10call(r, s, c, rc, tap, sig, r.Seed*1e9+int64(mi)*1e6+int64(i), zones)
			}
			r.See("methods", s.Pkg+s.Name+sig.Name)
		}
	}
	r.AtLeast("times on the wire", 5000)
	r.AtLeast("times read back", 5000)
	r.AtLeast("times outside the int64 nanosecond range", 500)
}

// exchange is a transport that hands requests to a handler and keeps the bytes.
type exchange struct {
	h        http.Handler
	req, rep []byte
	status   int
}

func (t *exchange) RoundTrip(req *http.Request) (*http.Response, error) {
	w := &wireTap{}
	_, _ = w.RoundTrip(req)
	t.req = w.body
	in := req.Clone(req.Context())
	in.RequestURI = req.URL.Path
	in.Body = readCloser(w.body)
	a := serve(t.h, in)
	if a.panicky != "" {
		return nil, fmt.Errorf("panic: %s", a.panicky)
	}
	t.rep, t.status = a.body, a.status
	return &http.Response{StatusCode: a.status, Header: a.header, Body: readCloser(a.body), ContentLength: int64(len(a.body)), Request: req}, nil
}

type bodyReader struct{ *bytes.Reader }

func (bodyReader) Close() error { return nil }

func readCloser(b []byte) bodyReader { return bodyReader{bytes.NewReader(b)} }

func hasTime(sig rt.Sig) bool {
	for _, t := range append(append([]reflect.Type{}, sig.In...), sig.Out...) {
		if contains(t, typeTime, map[reflect.Type]bool{}) {
			return true
		}
	}
	return false
}

func contains(t, what reflect.Type, seen map[reflect.Type]bool) bool {
	if t == what {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return contains(t.Elem(), what, seen)
	case reflect.Map:
		return contains(t.Key(), what, seen) || contains(t.Elem(), what, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if contains(t.Field(i).Type, what, seen) {
				return true
			}
		}
	}
	return false
}

// instant picks an instant of any magnitude.
func instant(g *rt.Gen, zones []*time.Location) time.Time {
	var t time.Time
	ns := int64(g.R.Intn(1e9))
	switch g.R.Intn(12) {
	case 0:
		return time.Time{}
	case 1: // around the ends of what an int64 of nanoseconds holds
		t = time.Unix([]int64{9223372036, -9223372037}[g.R.Intn(2)]+int64(g.R.Intn(5)-2), ns)
	case 2: // around the epoch
		t = time.Unix(int64(g.R.Intn(3)-1), ns)
	case 3:
		t = time.UnixMilli([]int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1<<53 - 1, 1 << 53, -1 << 53, 8640000000000000, -8640000000000000}[g.R.Intn(8)])
	case 4: // exact
		t = time.UnixMilli(int64(g.R.Intn(2000) - 1000))
	case 5: // years 0 to 9999
		t = time.Unix(g.R.Int63n(377705116799)-124334956800, ns)
	case 6, 7: // any magnitude
		ms := g.R.Int63() >> g.R.Intn(63)
		if g.R.Intn(2) == 0 {
			ms = -ms
		}
		t = time.UnixMilli(ms)
		if ms != math.MaxInt64 {
			t = t.Add(time.Duration(g.R.Intn(1e6)))
		}
	default:
		t = time.Unix(g.R.Int63n(4e9)-2e9, ns)
	}
	return t.In(zones[g.R.Intn(len(zones))])
}

// times collects the instants in a value in a fixed order.
func times(v reflect.Value, path string, out map[string]string) {
	t := v.Type()
	if t == typeTime {
		x := v.Interface().(time.Time)
		out[path] = millis(x).String()
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			if t.Elem() == typeTime {
				out[path] = "nil"
			}
			return
		}
		times(v.Elem(), path, out)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			times(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			times(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k.Interface()), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.IsExported() && f.Tag.Get("json") != "-" {
				times(v.Field(i), path+"."+f.Name, out)
			}
		}
	}
}

// whole tells whether all instants read back are whole milliseconds.
func whole(v reflect.Value) (bad string) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.Type() == typeTime {
			if t := v.Interface().(time.Time); t.Nanosecond()%1e6 != 0 {
				bad = t.String()
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(v)
	return
}

func p10call(r *rt.Report, s *rt.Service, c interface{}, rc *recorder, tap *exchange, sig rt.Sig, seed int64, zones []*time.Location) {
	g := gen(seed, rt.JSON)
	g.Big = false
	g.Choose = func(g *rt.Gen, t reflect.Type) (reflect.Value, bool) {
		if t == typeTime {
			return reflect.ValueOf(instant(g, zones)), true
		}
		return reflect.Value{}, false
	}
	in, out := values(g, sig.In), values(g, sig.Out)
	at := func() string {
		return fmt.Sprintf("%s.%s\n    args: %s\n    results: %s", s.Name, sig.Name, rt.ShowAll(ifaces(in)), rt.ShowAll(ifaces(out)))
	}
	rc.take()
	rc.set(ifaces(out))
	tap.req, tap.rep = nil, nil
	rets, err := call(c, context.Background(), sig.Name, in)
	es := rc.take()
	if len(es) != 1 {
		r.Violate("times: call", "%s\n    executed %d times, %v", at(), len(es), err)
		return
	}
	side := func(what string, wire []byte, vs []reflect.Value, back func(i int) reflect.Value) {
		if len(vs) == 0 {
			return
		}
		x, ok := decodeJSON(wire)
		xs, isArr := x.([]interface{})
		if !ok || !isArr || len(xs) != len(vs) {
			r.Violate("times: "+what+" wire", "%s\n    the wire has %q", at(), clip(wire))
			return
		}
		for i, v := range vs {
			if !contains(v.Type(), typeTime, map[reflect.Type]bool{}) {
				continue
			}
			path := fmt.Sprintf("%s %d", what, i)
			if d := jsonDiffers(v, xs[i], path); d != "" {
				r.Violate("times: "+what+" wire "+position(d), "%s\n    %s", at(), d)
			}
			sent := map[string]string{}
			times(v, path, sent)
			r.Count("times on the wire", len(sent))
			for _, ms := range sent {
				if n := strings.TrimPrefix(ms, "-"); len(n) > 13 || len(n) == 13 && n > "9223372036854" {
					r.Count("times outside the int64 nanosecond range", 1)
				}
				r.See("magnitudes", fmt.Sprint(len(ms), strings.HasPrefix(ms, "-")))
			}
			if back == nil {
				continue
			}
			b := back(i)
			got := map[string]string{}
			times(b, path, got)
			for p, ms := range sent {
				if got[p] != ms && !(ms == "nil" && got[p] == "") {
					r.Violate("times: "+what+" read back", "%s\n    %s: sent %s ms, read back %q", at(), p, ms, got[p])
				}
			}
			if len(got) > len(sent) {
				r.Violate("times: "+what+" read back", "%s\n    read back %d times, sent %d", at(), len(got), len(sent))
			}
			if bad := whole(b); bad != "" {
				r.Violate("times: "+what+" read back", "%s\n    read back %s", at(), bad)
			}
			r.Count("times read back", len(got))
		}
	}
	side("argument", tap.req, in, func(i int) reflect.Value { return typed(sig.In[i], es[0].args[i]) })
	if !plain(s, sig, rt.JSON) { // Go does not read unions from JSON
		side("result", tap.rep, out, nil)
		r.Count("replies of unions", 1)
		r.Case(s.Pkg + s.Name + sig.Name + string(tap.req) + string(tap.rep))
		return
	}
	side("result", tap.rep, out, func(i int) reflect.Value { return rets[i] })
	if err != nil {
		r.Violate("times: call", "%s\n    %v", at(), err)
	}
	r.Case(s.Pkg + s.Name + sig.Name + string(tap.req) + string(tap.rep))
	if seed%4000 == 3 {
		r.Sample(map[string]string{"call": s.Name + "." + sig.Name, "request": string(clip(tap.req)), "reply": string(clip(tap.rep))})
	}
}

// position names where a difference is, without indexes.
func position(d string) string {
	if i := strings.Index(d, ": "); i > 0 {
		d = d[:i]
	}
	return strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return -1
		}
		return c
	}, d)
}
