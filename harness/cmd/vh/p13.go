package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/fx"
	"verifharness/rt"
)

func init() { checks["P13"] = p13 }

// extMoney is registered for both encodings, extCelsius for JSON, extDigest
// for msgpack. They count what they are asked.
type (
	extMoney   struct{ conv, upd, write, read int64 }
	extCelsius struct{ conv, upd int64 }
	extDigest  struct{ write, read int64 }
)

func moneyString(m fx.Money) string { return fmt.Sprintf("%d/%s", m.Cents, m.Cur) }

func parseMoney(s string, m *fx.Money) {
	i := strings.IndexByte(s, '/')
	m.Cents, _ = strconv.ParseInt(s[:i], 10, 64)
	m.Cur = s[i+1:]
}

func money(v interface{}) fx.Money {
	switch m := v.(type) {
	case *fx.Money:
		return *m
	case fx.Money:
		return m
	}
	panic(fmt.Sprintf("extension called with %T", v))
}

func (x *extMoney) ConvertExt(v interface{}) interface{} {
	atomic.AddInt64(&x.conv, 1)
	return moneyString(money(v))
}

func (x *extMoney) UpdateExt(dst interface{}, src interface{}) {
	atomic.AddInt64(&x.upd, 1)
	parseMoney(src.(string), dst.(*fx.Money))
}

func (x *extMoney) WriteExt(v interface{}) []byte {
	atomic.AddInt64(&x.write, 1)
	return []byte(moneyString(money(v)))
}

func (x *extMoney) ReadExt(dst interface{}, src []byte) {
	atomic.AddInt64(&x.read, 1)
	parseMoney(string(src), dst.(*fx.Money))
}

func celsius(v interface{}) fx.Celsius {
	switch c := v.(type) {
	case *fx.Celsius:
		return *c
	case fx.Celsius:
		return c
	}
	panic(fmt.Sprintf("extension called with %T", v))
}

func celsiusString(c fx.Celsius) string { return "C" + strconv.FormatFloat(float64(c), 'g', -1, 64) }

func (x *extCelsius) ConvertExt(v interface{}) interface{} {
	atomic.AddInt64(&x.conv, 1)
	return celsiusString(celsius(v))
}

func (x *extCelsius) UpdateExt(dst interface{}, src interface{}) {
	atomic.AddInt64(&x.upd, 1)
	f, _ := strconv.ParseFloat(src.(string)[1:], 64)
	*dst.(*fx.Celsius) = fx.Celsius(f)
}

func digest(v interface{}) fx.Digest {
	switch d := v.(type) {
	case *fx.Digest:
		return *d
	case fx.Digest:
		return d
	}
	panic(fmt.Sprintf("extension called with %T", v))
}

func digestBytes(d fx.Digest) []byte {
	if d.Sum == nil {
		return []byte(d.Algo + "\x00-")
	}
	return append([]byte(d.Algo+"\x00+"), d.Sum...)
}

func (x *extDigest) WriteExt(v interface{}) []byte {
	atomic.AddInt64(&x.write, 1)
	return digestBytes(digest(v))
}

func (x *extDigest) ReadExt(dst interface{}, src []byte) {
	atomic.AddInt64(&x.read, 1)
	d := dst.(*fx.Digest)
	i := bytes.IndexByte(src, 0) // random algos may have a zero
	for src[i+1] != '-' && src[i+1] != '+' {
		i += 1 + bytes.IndexByte(src[i+1:], 0)
	}
	d.Algo, d.Sum = string(src[:i]), nil
	if src[i+1] == '+' {
		d.Sum = append([]byte{}, src[i+2:]...)
	}
}

const (
	tagMoney  = 17
	tagDigest = 42
)

// p13 registers extensions and watches their calls, the wire and the values.
func p13(r *rt.Report) {
	r.Rule = "each case is one call in which the extensions' calls, the extended values' wire forms and the values at both ends were compared; distinct by (service, method, encoding, arguments, results)"
	r.Assume = []string{"extensions are registered before the first call, as the codec requires"}
	if !p13twinsRegister(r) {
		return
	}
	xm, xc, xd := &extMoney{}, &extCelsius{}, &extDigest{}
	for _, err := range []error{
		gotsrpc.SetJSONExt(fx.Money{}, 1, xm), gotsrpc.SetMSGPackExt(fx.Money{}, tagMoney, xm),
		gotsrpc.SetJSONExt(fx.Celsius(0), 1, xc), gotsrpc.SetMSGPackExt(fx.Digest{}, tagDigest, xd),
	} {
		if err != nil {
			r.Violate("register", "registering an extension: %v", err)
			return
		}
	}
	d := &p13rig{r: r, xm: xm, xc: xc, xd: xd}
	for si, s := range services {
		d.s, d.rc = s, &recorder{}
		d.tap = &exchange{h: s.Default(d.rc.hook)}
		c, gc := s.Client("http://x", s.Endpoint(), &http.Client{Transport: d.tap})
		d.client = c
		n := r.N(120, 6000)
		if s.Name != "Ext" {
			n /= 20 // types without extensions
		}
		for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
			gc.SetClientEncoding(enc(w))
			for mi, sig := range s.Sigs() {
				if !plain(s, sig, w) || sig.Name == "TempLog" {
					continue
				}
				for i := 0; i < n; i++ {
					d.one(sig, w, r.Seed*1e9+int64(si)*1e7+int64(mi)*1e4+int64(i))
				}
				r.See("methods", s.Pkg+s.Name+sig.Name)
			}
		}
	}
	p13known(r)
	p13twins(r)
	r.AtLeast("extended values encoded", 3000)
	r.AtLeast("extended values decoded", 3000)
	r.AtLeast("values encoded and decoded by hand", 300)
}

// p13known probes a known finding.
func p13known(r *rt.Report) {
	g := newRig(service("Ext"), nil)
	defer g.close()
	g.gc.SetClientEncoding(enc(rt.JSON))
	in := map[string][]fx.Celsius{"a": {1, 2}, "b": {3}}
	g.rc.set([]interface{}{in})
	_, err := call(g.client, context.Background(), "TempLog", []reflect.Value{reflect.ValueOf(in)})
	es := g.rc.take()
	if err != nil || len(es) != 1 || !reflect.DeepEqual(es[0].args[0], in) {
		r.Violate("json: scalar with extension in a slice in a map", "map[string][]fx.Celsius, fx.Celsius being a float64 with a JSON extension, arrived differently: sent %v, %v", in, err)
	}
}

// twinExt is an extension that writes a constant.
type twinExt struct{ text string }

func (t *twinExt) ConvertExt(v interface{}) interface{} { return t.text }
func (t *twinExt) UpdateExt(dst interface{}, src interface{}) {
	reflect.ValueOf(dst).Elem().Field(0).SetString(t.text + "/" + fmt.Sprint(src))
}
func (t *twinExt) WriteExt(v interface{}) []byte { return []byte(t.text) }
func (t *twinExt) ReadExt(dst interface{}, src []byte) {
	reflect.ValueOf(dst).Elem().Field(0).SetString(t.text + "/" + string(src))
}

func twinA() reflect.Type {
	type T struct{ A string }
	return reflect.TypeOf(T{})
}

func twinB() reflect.Type {
	type T struct{ B string }
	return reflect.TypeOf(T{})
}

func twinNone() reflect.Type {
	type T struct{ C string }
	return reflect.TypeOf(T{})
}

// p13twinsRegister registers different extensions for different types of one name.
func p13twinsRegister(r *rt.Report) bool {
	for i, t := range []reflect.Type{twinA(), twinB()} {
		x := &twinExt{fmt.Sprint("ext", i)}
		v := reflect.Zero(t).Interface()
		for _, err := range []error{gotsrpc.SetJSONExt(v, uint64(100+i), x), gotsrpc.SetMSGPackExt(v, uint64(100+i), x)} {
			if err != nil {
				r.Violate("twins: register", "registering an extension for the type %d named %s: %v", i, t, err)
				return false
			}
		}
	}
	return true
}

func p13twins(r *rt.Report) {
	for i, t := range []reflect.Type{twinA(), twinB(), twinNone()} {
		for _, w := range []rt.Wire{rt.Msgpack, rt.JSON} {
			v := reflect.New(t)
			v.Elem().Field(0).SetString("plain")
			for at, x := range map[string]interface{}{"value": v.Elem().Interface(), "pointer": v.Interface(), "in a slice": reflect.Append(reflect.MakeSlice(reflect.SliceOf(t), 0, 1), v.Elem()).Interface()} {
				req := httptest.NewRequest("POST", "/", nil)
				req.Header.Set("Content-Type", ct(w))
				rec := httptest.NewRecorder()
				if err := gotsrpc.Reply([]interface{}{x}, nil, req, rec); err != nil {
					r.Violate("twins: "+w.String(), "replying with a %T: %v", x, err)
					continue
				}
				back := reflect.New(reflect.TypeOf(x))
				req = httptest.NewRequest("POST", "/", bytes.NewReader(rec.Body.Bytes()))
				req.Header.Set("Content-Type", ct(w))
				args := []interface{}{back.Interface()}
				if err := gotsrpc.LoadArgs(&args, nil, req); err != nil {
					r.Violate("twins: "+w.String(), "loading a %T from %q: %v", x, rec.Body.Bytes(), err)
					continue
				}
				got := back.Elem()
				if at == "pointer" {
					got = got.Elem()
				} else if at == "in a slice" {
					got = got.Index(0)
				}
				want := fmt.Sprintf("ext%d/ext%d", i, i)
				if i == 2 {
					want = "plain"
				}
				if s := got.Field(0).String(); s != want {
					r.Violate("twins: "+w.String(), "the type %d named %s, %s, over %s travelled as %q and became %q, wanted %q", i, t, at, w, rec.Body.Bytes(), s, want)
				}
				r.Case(fmt.Sprint("twin", i, w, at))
			}
		}
	}
}

type p13rig struct {
	r      *rt.Report
	s      *rt.Service
	rc     *recorder
	tap    *exchange
	client interface{}
	xm     *extMoney
	xc     *extCelsius
	xd     *extDigest
}

type p13calls struct{ mc, mu, mw, mr, cc, cu, dw, dr int64 }

func (d *p13rig) calls() (c p13calls) {
	c = p13calls{d.xm.conv, d.xm.upd, d.xm.write, d.xm.read, d.xc.conv, d.xc.upd, d.xd.write, d.xd.read}
	*d.xm, *d.xc, *d.xd = extMoney{}, extCelsius{}, extDigest{}
	return
}

func (d *p13rig) one(sig rt.Sig, w rt.Wire, seed int64) {
	r := d.r
	mk := func() (in, out []reflect.Value) {
		g := gen(seed, w)
		g.Big = false
		return values(g, sig.In), values(g, sig.Out)
	}
	in, out := mk()
	wantIn, wantOut := mk()
	at := func() string {
		return fmt.Sprintf("%s.%s over %s\n    args: %s\n    results: %s", d.s.Name, sig.Name, w, rt.ShowAll(ifaces(wantIn)), rt.ShowAll(ifaces(wantOut)))
	}
	d.rc.take()
	d.rc.set(ifaces(out))
	d.calls()
	d.tap.req, d.tap.rep = nil, nil
	rets, err := call(d.client, context.Background(), sig.Name, in)
	es, calls := d.rc.take(), d.calls()
	if err != nil || len(es) != 1 {
		r.Violate("extensions: call "+w.String(), "%s\n    %v, executed %d times", at(), err, len(es))
		return
	}
	for k, t := range sig.In {
		if x := rt.DiffV(w, wantIn[k], typed(t, es[0].args[k])); x != "" {
			r.Violate("extensions: values "+w.String(), "%s\n    argument %d: %s", at(), k, x)
		}
	}
	for k := range sig.Out {
		if x := rt.DiffV(w, wantOut[k], rets[k]); x != "" {
			r.Violate("extensions: values "+w.String(), "%s\n    result %d: %s", at(), k, x)
		}
	}
	var f found
	for _, v := range append(append([]reflect.Value{}, wantIn...), wantOut...) {
		f.walk(v, w)
	}
	m, c, x := int64(len(f.money)), int64(len(f.temp)), int64(len(f.sum))
	want := p13calls{mw: m, mr: m, dw: x, dr: x}
	if w == rt.JSON {
		want = p13calls{mc: m, mu: m, cc: c, cu: c}
	}
	// the codec may ask an extension more than once for a value
	if (calls.mc < want.mc || calls.mu < want.mu || calls.mw < want.mw || calls.mr < want.mr || calls.cc < want.cc || calls.cu < want.cu || calls.dw < want.dw || calls.dr < want.dr) ||
		w == rt.JSON && calls.mw+calls.mr+calls.dw+calls.dr > 0 || w == rt.Msgpack && calls.mc+calls.mu+calls.cc+calls.cu > 0 {
		r.Violate("extensions: calls "+w.String(), "%s\n    extension calls: %+v, wanted %+v", at(), calls, want)
	}
	r.Count("extended values encoded", int(calls.mc+calls.mw+calls.cc+calls.dw))
	r.Count("extended values decoded", int(calls.mu+calls.mr+calls.cu+calls.dr))
	side := func(what string, wire []byte, vs []reflect.Value) {
		if len(vs) == 0 {
			return
		}
		if w == rt.JSON {
			y, ok := decodeJSON(wire)
			ys, isArr := y.([]interface{})
			if !ok || !isArr || len(ys) != len(vs) {
				r.Violate("extensions: wire json", "%s\n    %s: %q", at(), what, clip(wire))
				return
			}
			for i, v := range vs {
				if bad := jsonDiffersExt(v, ys[i], fmt.Sprint(what, " ", i), p13JSON); bad != "" {
					r.Violate("extensions: wire json", "%s\n    %s", at(), bad)
				}
			}
			return
		}
		parts, ok := splitMsgpack(wire)
		if !ok || len(parts) != len(vs) {
			r.Violate("extensions: wire msgpack", "%s\n    %s: %q", at(), what, clip(wire))
			return
		}
		for i, v := range vs {
			if v.Kind() == reflect.Interface {
				continue
			}
			var f found
			f.walk(v, w)
			exts := map[string]int{}
			for _, e := range mpStrings(parts[i]) {
				exts[e]++
			}
			need := map[string]int{}
			for _, m := range f.money {
				need[moneyString(m)]++
			}
			for _, m := range f.sum {
				need[string(digestBytes(m))]++
			}
			for e, n := range need {
				if exts[e] < n {
					r.Violate("extensions: wire msgpack", "%s\n    %s %d has the extension value %q %d times, wanted %d", at(), what, i, e, exts[e], n)
				}
			}
			// by hand
			got := reflect.New(v.Type())
			if err := gotsrpc.NewMSGPackDecoderBytes(parts[i]).Decode(got.Interface()); err != nil {
				r.Violate("extensions: decoder", "%s\n    NewMSGPackDecoderBytes on %s %d: %v", at(), what, i, err)
			} else if x := rt.DiffV(w, v, got.Elem()); x != "" {
				r.Violate("extensions: decoder", "%s\n    NewMSGPackDecoderBytes on %s %d: %s", at(), what, i, x)
			}
			var b []byte
			x := v.Interface()
			if k := v.Kind(); k == reflect.Struct || k == reflect.Array {
				// the codec takes a struct or array of nothing but a nil pointer
				// for nil unless it is behind a pointer
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				x = p.Interface()
			}
			if err := gotsrpc.NewMSGPackEncoderBytes(&b).Encode(x); err != nil {
				r.Violate("extensions: encoder", "%s\n    NewMSGPackEncoderBytes on %s %d: %v", at(), what, i, err)
			} else if len(b) != len(parts[i]) || !hasMap(v.Type(), map[reflect.Type]bool{}) && !bytes.Equal(b, parts[i]) {
				r.Violate("extensions: encoder", "%s\n    NewMSGPackEncoderBytes on %s %d wrote %q, the wire has %q", at(), what, i, clip(b), clip(parts[i]))
			}
			r.Count("values encoded and decoded by hand", 1)
		}
	}
	d.calls()
	side("argument", d.tap.req, wantIn)
	side("result", d.tap.rep, wantOut)
	d.calls()
	r.Case(d.s.Pkg + d.s.Name + sig.Name + string(d.tap.req) + string(d.tap.rep))
	if seed%1e4 == 5 && d.s.Name == "Ext" {
		r.Sample(map[string]string{"method": sig.Name, "request": fmt.Sprintf("%.200q", d.tap.req), "extension calls": fmt.Sprintf("%+v", calls)})
	}
}

// p13JSON are the wire forms the extensions give.
func p13JSON(v reflect.Value) (interface{}, bool) {
	switch x := v.Interface().(type) {
	case fx.Money:
		return moneyString(x), true
	case fx.Celsius:
		return celsiusString(x), true
	}
	return nil, false
}

func hasMap(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Map, reflect.Interface:
		return true
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasMap(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasMap(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// found are the extended values within a value.
type found struct {
	money []fx.Money
	temp  []fx.Celsius
	sum   []fx.Digest
}

func (f *found) walk(v reflect.Value, w rt.Wire) {
	switch x := v.Interface().(type) {
	case fx.Money:
		f.money = append(f.money, x)
		return
	case fx.Celsius:
		f.temp = append(f.temp, x)
		return
	case fx.Digest:
		f.sum = append(f.sum, x)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			f.walk(v.Elem(), w)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i), w)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			f.walk(v.MapIndex(k), w)
		}
	case reflect.Struct:
		if v.Type() == typeTime {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				f.walk(v.Field(i), w)
			}
		}
	}
}

// mpStrings lists the payloads of strings, binaries and extensions in a msgpack value.
func mpStrings(b []byte) (es []string) {
	var walk func(b []byte) []byte
	walk = func(b []byte) []byte {
		c := b[0]
		many := func(h, n int) []byte {
			rest := b[h:]
			for i := 0; i < n; i++ {
				rest = walk(rest)
			}
			return rest
		}
		u16 := func() int { return int(binary.BigEndian.Uint16(b[1:])) }
		u32 := func() int { return int(binary.BigEndian.Uint32(b[1:])) }
		n := mpLen(b)
		switch {
		case c&0xf0 == 0x80:
			return many(1, 2*int(c&0x0f))
		case c&0xf0 == 0x90:
			return many(1, int(c&0x0f))
		case c&0xe0 == 0xa0:
			es = append(es, string(b[1:n]))
		}
		switch c {
		case 0xdc:
			return many(3, u16())
		case 0xdd:
			return many(5, u32())
		case 0xde:
			return many(3, 2*u16())
		case 0xdf:
			return many(5, 2*u32())
		case 0xc4, 0xd9, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
			es = append(es, string(b[2:n]))
		case 0xc5, 0xda, 0xc7:
			es = append(es, string(b[3:n]))
		case 0xc8:
			es = append(es, string(b[4:n]))
		case 0xc6, 0xdb:
			es = append(es, string(b[5:n]))
		case 0xc9:
			es = append(es, string(b[6:n]))
		}
		return b[n:]
	}
	walk(b)
	return
}
