//go:build fixtures

package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"os"
	"reflect"
	"regexp"

	"verifharness/allreg"
	"verifharness/rt"
)

func init() { endpoints = p20endpoints }

// p20endpoints compares where the constructors serve and call with the configurations.
func p20endpoints(r *rt.Report) {
	want := map[string]string{}
	for i := 0; ; i++ {
		f := "gotsrpc.yml"
		if i > 0 {
			f = fmt.Sprintf("rnd%d.yml", i)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			break
		}
		pkg := "verifharness/fx"
		if i > 0 {
			pkg = fmt.Sprintf("verifharness/rnd%d", i)
		}
		for _, m := range regexp.MustCompile(`(?m)^ +(/\S+): (\w+)$`).FindAllStringSubmatch(string(b), -1) {
			want[pkg+"."+m[2]] = m[1]
		}
	}
	for i := range allreg.Services {
		s := &allreg.Services[i]
		id := s.Pkg + "." + s.Name
		ep, ok := want[id]
		if !ok {
			continue
		}
		if got := s.Endpoint(); got != ep {
			r.Violate("endpoint", "%s is configured at %s, but its default proxy and client use %s", id, ep, got)
		}
		h := s.At(nil, "/elsewhere/"+s.Name)
		if v := reflect.Indirect(reflect.ValueOf(h)).FieldByName("EndPoint"); v.IsValid() && v.String() != "/elsewhere/"+s.Name {
			r.Violate("endpoint", "%s put at another endpoint serves %s", id, v)
		}
		if s.DefaultClient != nil {
			var path string
			c, gc := s.DefaultClient("http://somewhere")
			gc.SetTransportHttpClient(&http.Client{Transport: transport(func(req *http.Request) (*http.Response, error) {
				path = req.URL.Path
				return nil, errors.New("observed")
			})})
			m := reflect.ValueOf(c).MethodByName(s.Methods[0])
			in := []reflect.Value{reflect.ValueOf(context.Background())}
			for k := 1; k < m.Type().NumIn(); k++ {
				in = append(in, reflect.Zero(m.Type().In(k)))
			}
			m.Call(in)
			if path != ep+"/"+s.Methods[0] {
				r.Violate("endpoint", "%s is configured at %s, but its default client posts to %s", id, ep, path)
			}
		}
		r.Count("endpoints compared", 1)
		r.Case("endpoint " + id)
	}
}

type transport func(*http.Request) (*http.Response, error)

func (t transport) RoundTrip(req *http.Request) (*http.Response, error) { return t(req) }
