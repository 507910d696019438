package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/foomo/gotsrpc/v2"
	pkgerrors "github.com/pkg/errors"

	"verifharness/errs"
	twin "verifharness/errs/twin/errs"
	"verifharness/fx"
	"verifharness/fx/other"
	"verifharness/rt"
)

func init() { checks["P05"] = p05 }

func p05(r *rt.Report) {
	r.Rule = "each case is one error (a chain of 1 to 7 links) returned by a service and compared with what the Go client got, directly and relayed by a second service; distinct by (method, chain's types and messages, hops)"
	r.Assume = []string{"only single Unwrap chains; data of []byte, time.Time and maps without string keys are known findings", "Go method values, unexported fields and json:\"-\" fields do not travel"}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			d := newP05(r, int64(k))
			defer d.close()
			for i := r.N(1500, 60000); i > 0; i-- {
				d.chain(r.Seed*1e9 + int64(k)*1e7 + int64(i))
			}
		}(k)
	}
	wg.Wait()
	p05reuse(r)
	p05concrete(r)
	p05nil(r)
	p05deep(r)
	p05fixtures(r)
	p05probes(r)
	r.AtLeast("errors compared", 3000)
	r.AtLeast("sentinel checks", 3000)
	r.AtLeast("typed checks", 3000)
}

// sentinels; their messages differ, so that identity is decidable
var (
	sPlain   = errors.New("plain sentinel")
	sColon   = errors.New("sentinel: with: colons")
	sUni     = errors.New("ünï ✓ \x00 \"q\"")
	sPkg     = pkgerrors.New("sentinel made by pkg/errors")
	sEmpty   = errors.New("")
	sLong    = errors.New(strings.Repeat("long ", 2000))
	sOver    = fmt.Errorf("sentinel over: %w", sPlain)
	sOverPkg = pkgerrors.Wrap(sColon, "pkg sentinel")
	sMsg     = pkgerrors.WithMessage(sUni, "with message")
	sAround  = fmt.Errorf("before %w after", sPkg)
	sNever   = errors.New("never sent")
	sNever2  = fmt.Errorf("never over: %w", sNever)
)
var p05sentinels = []error{sPlain, sColon, sUni, sPkg, sEmpty, sLong, sOver, sOverPkg, sMsg, sAround, sNever, sNever2, io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, os.ErrNotExist, errs.Kind("sentinel kind")}

type errKind struct {
	name string
	mk   func(g *rt.Gen) error
	as   func(err error) (interface{}, bool)
}

func kind[T error](mk func(g *rt.Gen) T) errKind {
	t := reflect.TypeOf((*T)(nil)).Elem()
	if mk == nil {
		mk = func(g *rt.Gen) T {
			if t.Kind() == reflect.Ptr {
				p := reflect.New(t.Elem())
				p.Elem().Set(g.Value(t.Elem()))
				return p.Interface().(T)
			}
			return g.Value(t).Interface().(T)
		}
	}
	return errKind{t.PkgPath() + t.String(), func(g *rt.Gen) error { return mk(g) }, func(err error) (interface{}, bool) {
		var x T
		ok := errors.As(err, &x)
		return x, ok
	}}
}

var p05kinds = []errKind{
	kind[*fx.ScalarErr](nil), kind[fx.NumErr](func(g *rt.Gen) fx.NumErr { return fx.NumErr(g.R.Intn(30)) }), kind[fx.EmptyErr](nil), kind[*fx.StructErr](nil), kind[*fx.TaggedErr](nil), kind[fx.ValueErr](nil),
	kind[*other.Fault](nil), kind[*errs.Rich](nil), kind[errs.Coded](nil), kind[errs.List](nil), kind[errs.Lone](nil), kind[errs.LoneMap](nil), kind[errs.Dict](nil), kind[errs.Kind](nil), kind[*errs.Same](nil), kind[*twin.Same](nil),
	kind[*errs.Causer](func(g *rt.Gen) *errs.Causer {
		return &errs.Causer{Op: g.Str(), At: g.R.Intn(9), Inner: p05sentinels[g.R.Intn(10)]}
	}),
	kind[*fx.WrapErr](func(g *rt.Gen) *fx.WrapErr { return &fx.WrapErr{Op: g.Str()} }),
}

func p05leaf(g *rt.Gen) error {
	if g.R.Intn(3) == 0 {
		for {
			if s := p05sentinels[g.R.Intn(len(p05sentinels))]; s != sNever && s != sNever2 {
				return s
			}
		}
	}
	return p05kinds[g.R.Intn(len(p05kinds))].mk(g)
}

func p05wrap(g *rt.Gen, e error) error {
	s := g.Str()
	switch g.R.Intn(11) {
	case 0:
		return pkgerrors.Wrap(e, s)
	case 1:
		return pkgerrors.WithMessage(e, s)
	case 2:
		return pkgerrors.WithStack(e)
	case 3:
		return fmt.Errorf("%s: %w", s, e)
	case 4:
		return fmt.Errorf("%w: %s", e, s)
	case 5:
		return fmt.Errorf("%s %w %s", s, e, s)
	case 6:
		return fmt.Errorf("%w", e)
	case 7:
		return &fx.WrapErr{Op: s, Cause: e}
	case 8:
		return &errs.Causer{Op: s, At: g.R.Intn(100), Inner: e}
	case 9:
		return pkgerrors.Wrapf(e, "%s %d", s, g.R.Intn(5))
	default:
		return fmt.Errorf("%s: %s: %w", s, e.Error(), e)
	}
}

type p05rig struct {
	r          *rt.Report
	one, two   *rig
	cone, ctwo fx.ServiceGoTSRPCClient
}

func newP05(r *rt.Report, seed int64) *p05rig {
	d := &p05rig{r: r, one: newRig(service("Service"), nil), two: newRig(service("Service"), nil)}
	d.cone = d.one.client.(fx.ServiceGoTSRPCClient)
	d.ctwo = d.two.client.(fx.ServiceGoTSRPCClient)
	return d
}

func (d *p05rig) close() { d.one.close(); d.two.close() }

// send has the service return e and gives what the client got.
func send(g *rig, c fx.ServiceGoTSRPCClient, how int, e error) (got, clientErr error) {
	ctx := context.Background()
	switch how {
	case 0:
		g.rc.set([]interface{}{e})
		return c.Err(ctx, "x")
	case 1:
		g.rc.set([]interface{}{"ret", e})
		ret, err, cerr := c.ErrAnd(ctx, "x")
		if cerr == nil && ret != "ret" {
			cerr = fmt.Errorf("the result before the error arrived as %q", ret)
		}
		return err, cerr
	case 2:
		g.rc.set([]interface{}{e})
		return c.ErrHttp(ctx, "x")
	case 3:
		g.rc.set([]interface{}{e, nil})
		e1, e2, cerr := c.ErrTwo(ctx, "x")
		if cerr == nil && e2 != nil {
			cerr = fmt.Errorf("a nil second error arrived as %v", e2)
		}
		return e1, cerr
	case 4, 5, 6:
		rets := []interface{}{nil, 7, nil, nil, "s"}
		at := []int{0, 2, 3}[how-4]
		rets[at] = e
		other := []int{2, 3, 0}[how-4]
		rets[other] = sColon
		g.rc.set(rets)
		e1, n, e2, e3, s, cerr := c.ErrMany(ctx, "x")
		es := map[int]error{0: e1, 2: e2, 3: e3}
		for k, got := range es {
			switch {
			case cerr != nil || k == at:
			case k == other && !errors.Is(got, sColon):
				cerr = fmt.Errorf("another error arrived as %v", got)
			case k != other && got != nil:
				cerr = fmt.Errorf("a nil error arrived as %v", got)
			case n != 7 || s != "s":
				cerr = fmt.Errorf("the other results arrived as %d, %q", n, s)
			}
		}
		return es[at], cerr
	default:
		g.rc.set([]interface{}{sLong, e})
		e1, e2, cerr := c.ErrTwo(ctx, "x")
		if cerr == nil && (e1 == nil || e1.Error() != sLong.Error()) {
			cerr = fmt.Errorf("the first error arrived as %v", e1)
		}
		return e2, cerr
	}
}

func chainTypes(e error) (s string) {
	for ; e != nil; e = errors.Unwrap(e) {
		s += fmt.Sprintf("%T>", e)
	}
	return
}

func (d *p05rig) chain(seed int64) {
	g := &rt.Gen{R: rand.New(rand.NewSource(seed)), Wire: rt.Msgpack}
	e := p05leaf(g)
	for k := g.R.Intn(4); k > 0; k-- {
		e = p05wrap(g, e)
	}
	how := g.R.Intn(8)
	defer func() {
		if p := recover(); p != nil {
			d.r.Violate("panic", "comparing %s %q: panic %v\n%s", chainTypes(e), e, p, debug.Stack())
		}
	}()
	got, cerr := send(d.one, d.cone, how, e)
	d.compare("direct", e, got, cerr)
	if cerr != nil || got == nil || g.R.Intn(2) == 0 {
		return
	}
	// a second service relays what it got, as it is or wrapped once more; the
	// original is wrapped alike for comparison
	relayed, orig := got, e
	for k := g.R.Intn(3); k > 0; k-- {
		state := g.R.Int63()
		g1, g2 := &rt.Gen{R: rand.New(rand.NewSource(state)), Wire: rt.Msgpack}, &rt.Gen{R: rand.New(rand.NewSource(state)), Wire: rt.Msgpack}
		relayed, orig = p05wrap(g1, relayed), p05wrap(g2, orig)
	}
	got2, cerr := send(d.two, d.ctwo, g.R.Intn(8), relayed)
	d.compare("relayed", orig, got2, cerr)
}

// p05reuse: a service may return one error time and again, with other data; what
// was received before stays as it is.
func p05reuse(r *rt.Report) {
	d := newP05(r, 99)
	defer d.close()
	for i := 0; i < r.N(40, 1000); i++ {
		for _, k := range p05kinds {
			mk := func(n int) error {
				return k.mk(&rt.Gen{R: rand.New(rand.NewSource(r.Seed*1e9 + int64(i)*100 + int64(n))), Wire: rt.Msgpack})
			}
			used := mk(0)
			if reflect.TypeOf(used).Kind() != reflect.Ptr {
				continue
			}
			var got [3]error
			for n := range got {
				reflect.ValueOf(used).Elem().Set(reflect.ValueOf(mk(n)).Elem())
				e := used
				if i%3 > 0 { // messages may be fixed when wrapping
					e = p05wrap(&rt.Gen{R: rand.New(rand.NewSource(int64(i))), Wire: rt.Msgpack}, used)
				}
				var cerr error
				got[n], cerr = send(d.one, d.cone, i%8, e)
				d.compare("once more", e, got[n], cerr)
			}
			for n, e := range got {
				if e == nil || i%3 > 0 && (strings.HasSuffix(k.name, "Causer") || strings.HasSuffix(k.name, "WrapErr")) {
					continue // found first may be what it was wrapped in
				}
				x, _ := k.as(mk(n))
				if y, ok := k.as(e); !ok {
					r.Violate("received: as "+k.name, "an error received with a %s is none any more after further calls", k.name)
				} else if diff := errData(x, y); diff != "" {
					r.Violate("received: data "+k.name, "the data of an error received changed with further calls: %s", diff)
				}
			}
			r.Count("errors sent again", 1)
		}
	}
	r.AtLeast("errors sent again", 100)
}

func (d *p05rig) compare(hop string, e, got, cerr error) {
	r := d.r
	types := chainTypes(e)
	show := func() string { return fmt.Sprintf("%s: %s message %q", hop, types, clip([]byte(e.Error()))) }
	if cerr != nil {
		r.Violate(hop+": call", "%s\n    client error %v", show(), cerr)
		return
	}
	if got == nil {
		r.Violate(hop+": nil", "%s\n    arrived as nil", show())
		return
	}
	if got.Error() != e.Error() {
		r.Violate(hop+": message", "%s\n    arrived with message %q", show(), clip([]byte(got.Error())))
	}
	if m := fmt.Sprintf("%v", got); m != e.Error() {
		r.Violate(hop+": message", "%s\n    prints as %q", show(), clip([]byte(m)))
	}
	if m := fmt.Sprintf("%s", got); m != e.Error() {
		r.Violate(hop+": message", "%s\n    prints as %q", show(), clip([]byte(m)))
	}
	_ = fmt.Sprintf("%+v", got)
	for _, s := range p05sentinels {
		want, have := errors.Is(e, s), errors.Is(got, s)
		if want != have {
			r.Violate(fmt.Sprintf("%s: is %v", hop, want), "%s\n    errors.Is(_, %T %q): original %v, arrived %v", show(), s, clip([]byte(s.Error())), want, have)
		}
		if want {
			r.Count("sentinel checks", 1)
			r.See("sentinels found", s.Error())
		}
	}
	for _, k := range p05kinds {
		x, want := k.as(e)
		y, have := k.as(got)
		if want != have {
			r.Violate(fmt.Sprintf("%s: as %v %s", hop, want, k.name), "%s\n    errors.As(_, %s): original %v, arrived %v", show(), k.name, want, have)
			continue
		}
		if !want {
			continue
		}
		r.Count("typed checks", 1)
		r.See("types found", k.name)
		if diff := errData(x, y); diff != "" {
			r.Violate(hop+": data "+k.name, "%s\n    errors.As(_, %s): %s\n    original %s\n    arrived %s", show(), k.name, diff, rt.ShowAll([]interface{}{x}), rt.ShowAll([]interface{}{y}))
		}
	}
	root := e
	for u := errors.Unwrap(root); u != nil; u = errors.Unwrap(root) {
		root = u
	}
	done := make(chan error, 1)
	go func() { done <- pkgerrors.Cause(got) }()
	select {
	case c := <-done:
		// causes are links of the chain
		if c == nil || !strings.Contains(e.Error(), c.Error()) {
			r.Violate(hop+": cause", "%s\n    errors.Cause is %v", show(), c)
		}
	case <-time.After(20 * time.Second):
		r.Violate(hop+": cause", "%s\n    errors.Cause does not end", show())
	}
	r.Count("errors compared", 1)
	r.See("chains of types", types)
	r.Case(hop + types + e.Error())
}

// errData compares the exported data of two errors of one type.
func errData(x, y interface{}) string {
	switch a := x.(type) {
	case *fx.WrapErr:
		if b := y.(*fx.WrapErr); a.Op != b.Op {
			return fmt.Sprintf("Op %q became %q", a.Op, b.Op)
		}
		return ""
	case *errs.Causer:
		if b := y.(*errs.Causer); a.Op != b.Op || a.At != b.At {
			return fmt.Sprintf("%q %d became %q %d", a.Op, a.At, b.Op, b.At)
		}
		return ""
	}
	return rt.Diff(rt.Msgpack, x, y)
}

// p05concrete: results of concrete error types, nil pointers.
func p05concrete(r *rt.Report) {
	g := newRig(service("Service"), nil)
	defer g.close()
	c := g.client.(fx.ServiceGoTSRPCClient)
	ctx := context.Background()
	check := func(name string, want, got interface{}, cerr error) {
		if cerr != nil {
			r.Violate("concrete: "+name, "returning %s: client error %v", rt.ShowAll([]interface{}{want}), cerr)
			return
		}
		if d := rt.Diff(rt.Msgpack, want, got); d != "" {
			r.Violate("concrete: "+name, "returning %s: %s", rt.ShowAll([]interface{}{want}), d)
		}
		r.Count("concrete errors compared", 1)
		r.Case("concrete" + name + rt.ShowAll([]interface{}{want}))
	}
	for i := 0; i < r.N(150, 5000); i++ {
		gn := gen(r.Seed*1e6+int64(i), rt.Msgpack)
		gn.Big = false
		sig := func(m string, k int) reflect.Type { return g.s.Sig(m).Out[k] }
		x1 := gn.Value(sig("ErrScalar", 0)).Interface()
		g.rc.set([]interface{}{x1})
		got1, cerr := c.ErrScalar(ctx, "x")
		check("ErrScalar", x1, got1, cerr)
		x2, n := gn.Value(sig("ErrStruct", 1)).Interface(), gn.R.Int()
		g.rc.set([]interface{}{n, x2})
		m, got2, cerr := c.ErrStruct(ctx, "x")
		check("ErrStruct", x2, got2, cerr)
		check("ErrStruct n", n, m, cerr)
		x3 := gn.Value(sig("ErrTagged", 0)).Interface()
		g.rc.set([]interface{}{x3})
		got3, cerr := c.ErrTagged(ctx, "x")
		check("ErrTagged", x3, got3, cerr)
		x4 := gn.Value(sig("ErrFault", 0)).Interface()
		g.rc.set([]interface{}{x4})
		got4, cerr := c.ErrFault(ctx, "x")
		check("ErrFault", x4, got4, cerr)
	}
	for name, e := range map[string]error{"nil": nil, "nil *StructErr": (*fx.StructErr)(nil), "nil *ScalarErr": (*fx.ScalarErr)(nil), "nil *Fault": (*other.Fault)(nil), "nil *Rich": (*errs.Rich)(nil)} {
		for how := 0; how < 8; how++ {
			got, cerr := send(g, c, how, e)
			if cerr != nil || got != nil {
				r.Violate("nil error: "+name, "a %s returned as an error arrived as %v, client error %v", name, got, cerr)
			}
			r.Case(fmt.Sprint("nil", name, how))
		}
	}
}

// p05nil: a nil *Error, as an unset field of an outer struct is one, and nil targets match nothing.
func p05nil(r *rt.Report) {
	defer func() {
		if p := recover(); p != nil {
			r.Violate("nil *Error", "asking a nil *Error for its identity, or one for nil's, panics: %v", p)
		}
	}()
	var none *gotsrpc.Error
	some := gotsrpc.NewError(sPlain)
	var target *errs.Rich
	var plain *gotsrpc.Error
	for name, bad := range map[string]bool{
		"nil Is":          none.Is(sPlain),
		"nil Is nil":      none.Is(nil),
		"Is nil":          some.Is(nil),
		"nil As":          none.As(&target),
		"As nil":          some.As(nil),
		"errors.Is nil":   errors.Is(none, sPlain),
		"errors.Is some":  errors.Is(some, nil),
		"errors.As nil":   errors.As(none, &target),
		"Unwrap":          errors.Unwrap(none) != nil || some.Unwrap() != nil,
		"wrapped":         errors.Is(fmt.Errorf("around: %w", none), sPlain),
		"no *Error in it": errors.As(sPlain, &plain),
	} {
		r.Case("nil *Error " + name)
		if bad {
			r.Violate("nil *Error", "%s: something was found in nothing", name)
		}
	}
}

// p05fixtures: error results of the random services, among other results.
func p05fixtures(r *rt.Report) {
	for _, s := range services {
		if s.Name == "Service" {
			continue
		}
		g := newRig(s, nil)
		for mi, sig := range s.Sigs() {
			if !sig.HasError {
				continue
			}
			for i := 0; i < r.N(20, 500); i++ {
				gn := gen(r.Seed*1e6+int64(mi)*1e4+int64(i), rt.Msgpack)
				gn.Big = false
				in, out := values(gn, sig.In), values(gn, sig.Out)
				rets := ifaces(out)
				for k, t := range sig.Out {
					if t == rt.TypeErr && gn.R.Intn(3) > 0 {
						rets[k] = p05wrap(gn, p05leaf(gn))
					}
				}
				g.rc.set(rets)
				got, cerr := call(g.client, context.Background(), sig.Name, in)
				at := s.Name + "." + sig.Name
				if cerr != nil {
					r.Violate("fixture "+at, "%s returning %s: client error %v", at, rt.ShowAll(rets), cerr)
					continue
				}
				for k, t := range sig.Out {
					if t != rt.TypeErr {
						if d := rt.DiffV(rt.Msgpack, typed(t, rets[k]), got[k]); d != "" {
							r.Violate("fixture "+at, "%s: result %d: %s", at, k, d)
						}
						continue
					}
					if (rets[k] == nil) != got[k].IsNil() {
						r.Violate("fixture "+at, "%s: error %v arrived as %v", at, rets[k], got[k])
					} else if rets[k] != nil {
						want := rets[k].(error)
						have := got[k].Interface().(error)
						if want.Error() != have.Error() {
							r.Violate("fixture "+at, "%s: error %q arrived as %q", at, want, have)
						}
					}
				}
				r.Count("fixture errors compared", 1)
				r.Case(at + rt.ShowAll(rets))
			}
		}
		g.close()
	}
}

type (
	bytesErr struct{ B []byte }
	timeErr  struct{ T time.Time }
	intErr   struct{ M map[int]string }
)

func (e *bytesErr) Error() string { return "bytes error" }
func (e *timeErr) Error() string  { return "time error" }
func (e *intErr) Error() string   { return "int map error" }

// p05probes looks at known findings.
func p05probes(r *rt.Report) {
	g := newRig(service("Service"), nil)
	defer g.close()
	c := g.client.(fx.ServiceGoTSRPCClient)
	b, cerr := send(g, c, 0, &bytesErr{[]byte("abc")})
	var be *bytesErr
	if cerr != nil || b == nil || b.Error() != "bytes error" {
		r.Violate("bytes error", "arrived as %v, client error %v", b, cerr)
	} else if !errors.As(b, &be) || !bytes.Equal(be.B, []byte("abc")) {
		r.Violate("data: []byte field", "errors.As does not restore an error with a []byte field")
	}
	b, cerr = send(g, c, 0, &timeErr{time.Unix(1, 0)})
	var te *timeErr
	if cerr != nil || b == nil || b.Error() != "time error" {
		r.Violate("time error", "arrived as %v, client error %v", b, cerr)
	} else if !errors.As(b, &te) || !te.T.Equal(time.Unix(1, 0)) {
		r.Violate("data: time.Time field", "errors.As does not restore an error with a time.Time field")
	}
	b, cerr = send(g, c, 0, &intErr{map[int]string{1: "a"}})
	var ie *intErr
	switch {
	case cerr != nil:
		r.Violate("data: map[int] field", "an error with a map[int]string field fails the call: %v", cerr)
	case b == nil || b.Error() != "int map error" || !errors.As(b, &ie) || ie.M[1] != "a":
		r.Violate("data: map[int] field changed", "arrived as %v", b)
	}
}
