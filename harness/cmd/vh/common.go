package main

import (
	"bytes"
	"context"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/allreg"
	"verifharness/rt"
)

var services = func() []*rt.Service {
	var ss []*rt.Service
	for i := range allreg.Services {
		ss = append(ss, &allreg.Services[i])
	}
	return ss
}()

func service(name string) *rt.Service {
	for _, s := range services {
		if s.Name == name {
			return s
		}
	}
	panic("no service " + name)
}

// watchdog ends a run in which nothing happens any more: calls that never end
// violate whichever property is being observed.
func watchdog(r *rt.Report) {
	go func() {
		last, since := -1, time.Now()
		for {
			time.Sleep(time.Second)
			if n := r.Progress(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 150*time.Second {
				var b bytes.Buffer
				_ = pprof.Lookup("goroutine").WriteTo(&b, 1)
				_, _ = os.Stderr.Write(b.Bytes())
				r.Violate("hang", "no call ended for 150 s:\n%s", b.String())
				r.Finish()
			}
		}
	}()
}

// event is one observed invocation of a service method.
type event struct {
	svc, method string
	w           http.ResponseWriter
	r           *http.Request
	args        []interface{}
}

// recorder is the monitor's hook: it logs invocations and returns the results set.
type recorder struct {
	mu     sync.Mutex
	events []event
	rets   []interface{}
	on     func(e event) // called unlocked, before returning
}

func (rc *recorder) hook(svc, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{} {
	e := event{svc, method, w, r, args}
	rc.mu.Lock()
	rc.events = append(rc.events, e)
	rets, on := rc.rets, rc.on
	rc.mu.Unlock()
	if on != nil {
		on(e)
	}
	return rets
}

// take returns the events since the last call.
func (rc *recorder) take() []event {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	es := rc.events
	rc.events = nil
	return es
}

func (rc *recorder) set(rets []interface{}) {
	rc.mu.Lock()
	rc.rets = rets
	rc.mu.Unlock()
}

// encoding of a wire
func enc(w rt.Wire) gotsrpc.ClientEncoding {
	if w == rt.JSON {
		return gotsrpc.EncodingJson
	}
	return gotsrpc.EncodingMsgpack
}

const (
	ctMsgpack = "application/msgpack; charset=utf-8"
	ctJSON    = "application/json; charset=utf-8"
)

func ct(w rt.Wire) string {
	if w == rt.JSON {
		return ctJSON
	}
	return ctMsgpack
}

// rig is a service's proxy behind a server with a generated client.
type rig struct {
	s      *rt.Service
	rc     *recorder
	srv    *httptest.Server
	client interface{}
	gc     gotsrpc.Client
	ep     string
}

func newRig(s *rt.Service, wrap func(http.Handler) http.Handler) *rig {
	g := &rig{s: s, rc: &recorder{}, ep: s.Endpoint()}
	var h http.Handler = s.Default(g.rc.hook)
	if wrap != nil {
		h = wrap(h)
	}
	g.srv = httptest.NewServer(h)
	g.client, g.gc = s.Client(g.srv.URL, g.ep, g.srv.Client())
	return g
}

func newServer(h http.Handler) *httptest.Server { return httptest.NewServer(h) }

func (g *rig) close() { g.srv.Close() }

// call invokes a client's method and splits off the client error.
func call(client interface{}, ctx context.Context, method string, args []reflect.Value) (rets []reflect.Value, clientErr error) {
	c := reflect.New(typeContext).Elem()
	if ctx != nil {
		c.Set(reflect.ValueOf(ctx))
	}
	in := append([]reflect.Value{c}, args...)
	out := reflect.ValueOf(client).MethodByName(method).Call(in)
	last := out[len(out)-1]
	if !last.IsNil() {
		clientErr = last.Interface().(error)
	}
	return out[:len(out)-1], clientErr
}

func values(g *rt.Gen, ts []reflect.Type) (vs []reflect.Value) {
	for _, t := range ts {
		vs = append(vs, g.Value(t))
	}
	return
}

func ifaces(vs []reflect.Value) (xs []interface{}) {
	for _, v := range vs {
		xs = append(xs, v.Interface())
	}
	return
}

// typed makes a reflect.Value of static type t out of x.
func typed(t reflect.Type, x interface{}) reflect.Value {
	v := reflect.New(t).Elem()
	if x != nil {
		v.Set(reflect.ValueOf(x))
	}
	return v
}

func gen(seed int64, w rt.Wire) *rt.Gen {
	return &rt.Gen{R: rand.New(rand.NewSource(seed)), Wire: w, Big: true}
}

// plain tells whether the method echoes ordinary values: no errors and no
// unions over JSON (which have properties of their own).
func plain(s *rt.Service, sig rt.Sig, w rt.Wire) bool {
	return !sig.HasError && !(s.Name == "UnionService" && w == rt.JSON)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var discardLog = log.New(io.Discard, "", 0)

var typeContext = reflect.TypeOf((*context.Context)(nil)).Elem()
