// Package rt is the runtime support shared by the generated registries and the
// monitors: service descriptors and the hook the recording services call.
package rt

import (
	"crypto/tls"
	"net/http"
	"reflect"

	gotsrpc "github.com/foomo/gotsrpc/v2"
)

// Hook receives every invocation of a service method. w and r are nil unless
// the method asked for them. It returns the results.
type Hook func(svc, method string, w http.ResponseWriter, r *http.Request, args []interface{}) []interface{}

type RPCServer interface {
	Start() error
	Stop()
	SetCallStatsHandler(handler gotsrpc.GoRPCCallStatsHandlerFun)
}

type RPCClient interface {
	Start()
	Stop()
}

type Service struct {
	Name, Pkg     string
	Methods       []string
	ArgNames      map[string][]string
	RetNames      map[string][]string
	Iface         reflect.Type
	Impl          func(Hook) interface{}
	Default       func(Hook) http.Handler
	At            func(Hook, string) http.Handler
	Endpoint      func() string
	Client        func(url, ep string, c *http.Client) (interface{}, gotsrpc.Client)
	DefaultClient func(url string) (interface{}, gotsrpc.Client)
	PlainClient   func(url, ep string) (interface{}, gotsrpc.Client)
	RPCServer     func(addr string, h Hook, t *tls.Config) RPCServer
	RPCClient     func(addr string, t *tls.Config) RPCClient
}

// Put stores rs[i] in *dst (a pointer to the result's type); nil leaves the zero value.
func Put(dst interface{}, rs []interface{}, i int) {
	if i >= len(rs) || rs[i] == nil {
		return
	}
	reflect.ValueOf(dst).Elem().Set(reflect.ValueOf(rs[i]))
}

var (
	TypeW   = reflect.TypeOf((*http.ResponseWriter)(nil)).Elem()
	TypeR   = reflect.TypeOf((*http.Request)(nil))
	TypeErr = reflect.TypeOf((*error)(nil)).Elem()
)

// Sig is a method's signature as the service declares it, without the HTTP pair.
type Sig struct {
	Name     string
	HTTP     bool
	In, Out  []reflect.Type
	HasError bool // some result is an error type
}

func (s *Service) Sig(method string) Sig {
	m, ok := s.Iface.MethodByName(method)
	if !ok {
		panic("no method " + method)
	}
	sig := Sig{Name: method}
	for i := 0; i < m.Type.NumIn(); i++ {
		t := m.Type.In(i)
		if t == TypeW || t == TypeR {
			sig.HTTP = true
			continue
		}
		sig.In = append(sig.In, t)
	}
	for i := 0; i < m.Type.NumOut(); i++ {
		t := m.Type.Out(i)
		if t.Implements(TypeErr) {
			sig.HasError = true
		}
		sig.Out = append(sig.Out, t)
	}
	return sig
}

func (s *Service) Sigs() []Sig {
	var r []Sig
	for _, m := range s.Methods {
		r = append(r, s.Sig(m))
	}
	return r
}
