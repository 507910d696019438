package main

import (
	"context"
	"fmt"
	"net/http"
	"reflect"
	"time"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/fx"
	"verifharness/fx/other"
	"verifharness/rt"
)

func init() { checks["P11"] = p11 }

// unions registered by hand, as the package's documentation has it
type (
	p11Scalars struct {
		S *string  `json:"s,omitempty" gotsrpc:"union"`
		I *int     `json:"i,omitempty" gotsrpc:"union"`
		F *float64 `json:"f,omitempty" gotsrpc:"union"`
		B *bool    `json:"b,omitempty" gotsrpc:"union"`
	}
	p11Values struct {
		S string   `json:"s,omitempty" gotsrpc:"union"`
		I int      `json:"i,omitempty" gotsrpc:"union"`
		L []string `json:"l,omitempty" gotsrpc:"union"`
	}
	p11Lists struct {
		L *[]string          `json:"l,omitempty" gotsrpc:"union"`
		M *map[string]fx.Pet `json:"m,omitempty" gotsrpc:"union"`
		P *[]fx.Pet          `json:"p,omitempty" gotsrpc:"union"`
	}
	p11Deep struct {
		Four  *p11Scalars `json:"four,omitempty" gotsrpc:"union"`
		Lists *p11Lists   `json:"lists,omitempty" gotsrpc:"union"`
		Last  *p11Values  `json:"last,omitempty" gotsrpc:"union"`
	}
)

// p11 compares replies with JSON written from the values by the monitor's own
// reading of unions.
func p11(r *rt.Report) {
	r.Rule = "each case is one reply whose JSON (or, over msgpack, decoded value) was compared with the union values the service returned; distinct by (method, encoding, results)"
	r.Assume = []string{"TypeScript clients read unions; Go clients only over msgpack"}
	if err := gotsrpc.RegisterUnionExt(p11Scalars{}, p11Values{}, p11Lists{}); err != nil {
		r.Violate("register", "RegisterUnionExt: %v", err)
		return
	}
	gotsrpc.MustRegisterUnionExt(p11Deep{})
	n := r.N(300, 20000)
	for _, s := range services {
		if s.Name != "UnionService" && s.Name != "Service" && s.Name != "RndA" {
			continue
		}
		rc := &recorder{}
		tap := &exchange{h: s.Default(rc.hook)}
		c, gc := s.Client("http://x", s.Endpoint(), &http.Client{Transport: tap})
		for _, w := range []rt.Wire{rt.JSON, rt.Msgpack} {
			gc.SetClientEncoding(enc(w))
			for mi, sig := range s.Sigs() {
				k := n
				if s.Name != "UnionService" { // values without unions
					k = n / 30
					if sig.HasError || w == rt.Msgpack {
						continue
					}
				}
				for i := 0; i < k; i++ {
					p11call(r, s, c, rc, tap, sig, w, r.Seed*1e9+int64(mi)*1e6+int64(i))
				}
			}
		}
	}
	p11any(r)
	r.AtLeast("unions on the wire", 3000)
	r.AtLeast("unions without member", 100)
	r.AtLeast("unions with several members", 100)
	r.AtLeast("unions round-tripped over msgpack", 1000)
}

func p11gen(seed int64, w rt.Wire) *rt.Gen {
	g := gen(seed, w)
	g.Big = false
	g.Choose = func(g *rt.Gen, t reflect.Type) (reflect.Value, bool) {
		if !isUnion(t) {
			return reflect.Value{}, false
		}
		v := reflect.New(t).Elem()
		k := -1 // no member
		if g.R.Intn(8) > 0 {
			k = g.R.Intn(t.NumField())
		}
		for i := 0; i < t.NumField(); i++ {
			if i != k && !(k >= 0 && g.R.Intn(8) == 0) {
				continue
			}
			ft := t.Field(i).Type
			if ft.Kind() != reflect.Ptr {
				v.Field(i).Set(g.Value(ft))
				continue
			}
			p := reflect.New(ft.Elem())
			if g.R.Intn(6) > 0 { // else the zero value, which is set all the same
				p.Elem().Set(g.Value(ft.Elem()))
			}
			if ft.Elem() == typeTime && w == rt.Msgpack && p.Elem().IsZero() {
				p.Elem().Set(reflect.ValueOf(time.UnixMilli(1).UTC())) // see Gen.value
			}
			v.Field(i).Set(p)
		}
		return v, true
	}
	return g
}

// p11count counts the unions in a value.
func p11count(r *rt.Report, v reflect.Value, w rt.Wire) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			p11count(r, v.Elem(), w)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			p11count(r, v.Index(i), w)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			p11count(r, v.MapIndex(k), w)
		}
	case reflect.Struct:
		if isUnion(v.Type()) {
			set := 0
			for i := 0; i < v.NumField(); i++ {
				if !v.Field(i).IsZero() {
					set++
					if set == 1 {
						r.See("members", v.Type().String()+"."+v.Type().Field(i).Name)
					}
				}
			}
			if w == rt.Msgpack {
				r.Count("unions round-tripped over msgpack", 1)
			} else {
				r.Count("unions on the wire", 1)
			}
			if set == 0 {
				r.Count("unions without member", 1)
			} else if set > 1 {
				r.Count("unions with several members", 1)
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				p11count(r, v.Field(i), w)
			}
		}
	}
}

func p11call(r *rt.Report, s *rt.Service, c interface{}, rc *recorder, tap *exchange, sig rt.Sig, w rt.Wire, seed int64) {
	g := p11gen(seed, w)
	in, out := values(g, sig.In), values(g, sig.Out)
	want := values(func() *rt.Gen { g := p11gen(seed, w); values(g, sig.In); return g }(), sig.Out)
	at := func() string {
		return fmt.Sprintf("%s.%s over %s returning %s", s.Name, sig.Name, w, rt.ShowAll(ifaces(want)))
	}
	rc.take()
	rc.set(ifaces(out))
	tap.rep = nil
	rets, err := call(c, context.Background(), sig.Name, in)
	if es := rc.take(); len(es) != 1 || tap.status != 200 {
		r.Violate("unions: call", "%s: %d executions, status %d, %v", at(), len(es), tap.status, err)
		return
	}
	if w == rt.Msgpack {
		if err != nil {
			r.Violate("unions: msgpack", "%s: %v", at(), err)
			return
		}
		for i := range want {
			if d := rt.DiffV(w, want[i], rets[i]); d != "" {
				r.Violate("unions: msgpack", "%s: result %d: %s", at(), i, d)
			}
			p11count(r, want[i], w)
		}
		r.Case(s.Name + sig.Name + string(tap.rep))
		return
	}
	x, ok := decodeJSON(tap.rep)
	xs, isArr := x.([]interface{})
	if !ok || !isArr || len(xs) != len(want) {
		r.Violate("unions: wire", "%s: the reply is %q", at(), clip(tap.rep))
		return
	}
	for i, v := range want {
		if d := jsonDiffers(v, xs[i], fmt.Sprint("result ", i)); d != "" {
			r.Violate("unions: wire "+s.Name+"."+sig.Name, "%s: %s\n  %s", at(), d, clip(tap.rep))
		}
		p11count(r, v, w)
	}
	r.Case(s.Pkg + s.Name + sig.Name + string(tap.rep))
	if seed%1e6 == 7 && s.Name == "UnionService" {
		r.Sample(map[string]string{"method": sig.Name, "returned": rt.ShowAll(ifaces(want)), "reply": string(clip(tap.rep))})
	}
}

// p11any returns unions, also hand registered ones, as interface{}.
func p11any(r *rt.Report) {
	s := service("Service")
	rc := &recorder{}
	tap := &exchange{h: s.Default(rc.hook)}
	c, gc := s.Client("http://x", s.Endpoint(), &http.Client{Transport: tap})
	gc.SetClientEncoding(enc(rt.JSON))
	types := []reflect.Type{reflect.TypeOf(p11Scalars{}), reflect.TypeOf(p11Values{}), reflect.TypeOf(p11Lists{}), reflect.TypeOf(p11Deep{}),
		reflect.TypeOf(fx.Pet{}), reflect.TypeOf(fx.Twin{}), reflect.TypeOf(fx.FarShape{}), reflect.TypeOf(fx.Solo{}), reflect.TypeOf(fx.When{}), reflect.TypeOf(fx.Bare{}), reflect.TypeOf(fx.UnionStr{}), reflect.TypeOf(fx.Either{}), reflect.TypeOf(fx.Valued{}), reflect.TypeOf(other.Shape{}), reflect.TypeOf(fx.Kennel{})}
	for i := 0; i < r.N(3000, 100000); i++ {
		g := p11gen(r.Seed*1e9+int64(i), rt.JSON)
		t := types[g.R.Intn(len(types))]
		switch g.R.Intn(6) {
		case 0:
			t = reflect.PtrTo(t)
		case 1:
			t = reflect.SliceOf(t)
		case 2:
			t = reflect.MapOf(reflect.TypeOf(""), t)
		case 3:
			t = reflect.SliceOf(reflect.MapOf(reflect.TypeOf(fx.Str("")), reflect.PtrTo(t)))
		}
		v := g.Value(t)
		rc.set([]interface{}{v.Interface()})
		_, _ = call(c, context.Background(), "Any", []reflect.Value{reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()})
		x, ok := decodeJSON(tap.rep)
		xs, isArr := x.([]interface{})
		if tap.status != 200 || !ok || !isArr || len(xs) != 1 {
			r.Violate("unions: any", "%s as interface{}: status %d %q", rt.Show(v), tap.status, clip(tap.rep))
			continue
		}
		if d := jsonDiffers(v, xs[0], "value"); d != "" {
			r.Violate("unions: any "+t.String(), "%s as interface{}: %s\n  %s", rt.Show(v), d, clip(tap.rep))
		}
		p11count(r, v, rt.JSON)
		r.Case("any " + t.String() + string(tap.rep))
	}
}
