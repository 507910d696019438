package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"runtime/debug"

	gotsrpc "github.com/foomo/gotsrpc/v2"
	"verifharness/rt"
)

// answer is what came back for a request put to a handler directly.
type answer struct {
	status  int
	header  http.Header
	body    []byte
	panicky string
}

// put hands a request to the handler.
func put(h http.Handler, method, path, contentType string, body io.Reader) (a answer) {
	req := httptest.NewRequest(http.MethodPost, "/", body)
	req.Method = method
	req.URL.Path = path
	req.RequestURI = path
	if contentType != "" {
		req.Header.Set("Content-Type", contentType)
	}
	return serve(h, req)
}

func serve(h http.Handler, req *http.Request) (a answer) {
	rw := httptest.NewRecorder()
	defer func() {
		if p := recover(); p != nil {
			a.panicky = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	h.ServeHTTP(rw, req)
	res := rw.Result()
	b, _ := io.ReadAll(res.Body)
	return answer{status: res.StatusCode, header: res.Header, body: b}
}

// wireTap is a transport that keeps requests instead of sending them.
type wireTap struct {
	req  *http.Request
	body []byte
}

var errTapped = errors.New("tapped")

func (t *wireTap) RoundTrip(r *http.Request) (*http.Response, error) {
	t.req = r
	t.body = nil
	if r.Body != nil {
		t.body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	return nil, errTapped
}

// tapper encodes calls of a service with the generated client.
type tapper struct {
	tap    *wireTap
	client interface{}
	gc     gotsrpc.Client
	wire   rt.Wire
}

func newTapper(s *rt.Service, w rt.Wire) *tapper {
	t := &tapper{tap: &wireTap{}, wire: w}
	t.client, t.gc = s.Client("http://tapped", s.Endpoint(), &http.Client{Transport: t.tap})
	t.gc.SetClientEncoding(enc(w))
	return t
}

// body returns the request body the generated client makes of a call.
func (t *tapper) body(method string, args []reflect.Value) ([]byte, error) {
	t.tap.req, t.tap.body = nil, nil
	_, err := call(t.client, context.Background(), method, args)
	if t.tap.req == nil {
		return nil, err
	}
	return unpadded(bytes.Clone(t.tap.body), t.wire), nil
}

// unpadded is b without white space behind its end, which JSON may have: a
// body cut there would still be whole.
func unpadded(b []byte, w rt.Wire) []byte {
	if w == rt.JSON && b != nil {
		return bytes.TrimRight(b, " \t\r\n")
	}
	return b
}

// brokenReader yields the first bytes of a body and then fails.
type brokenReader struct {
	b   []byte
	err error
}

func (b *brokenReader) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		return 0, b.err
	}
	n := copy(p, b.b)
	b.b = b.b[n:]
	return n, nil
}
