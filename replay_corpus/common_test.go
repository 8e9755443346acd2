package PKG

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ugorji/go/codec"
	"github.com/valyala/gorpc"

	"github.com/foomo/gotsrpc/v2"
)

type verifMethod struct {
	name       string
	http       bool
	args, rets []reflect.Type
	argNames   []string
	retNames   []string // "" if not named
}

// verifRec is the recording implementation every service of the corpus delegates to.
type verifRec struct {
	mu    sync.Mutex
	calls []verifCall
	rets  map[string][]interface{}
	hook  func(w http.ResponseWriter, r *http.Request)
	delay time.Duration
}

type verifCall struct {
	name string
	args []interface{}
	w    http.ResponseWriter
	r    *http.Request
}

func (c *verifRec) call(name string, w http.ResponseWriter, r *http.Request, args ...interface{}) []interface{} {
	c.mu.Lock()
	c.calls = append(c.calls, verifCall{name, args, w, r})
	rets, hook, d := c.rets[name], c.hook, c.delay
	c.mu.Unlock()
	time.Sleep(d)
	if hook != nil && w != nil {
		hook(w, r)
	}
	return rets
}

func (c *verifRec) take() []verifCall {
	c.mu.Lock()
	defer c.mu.Unlock()
	x := c.calls
	c.calls = nil
	return x
}

type verifGoRPC interface {
	Start() error
	Stop()
	SetCallStatsHandler(gotsrpc.GoRPCCallStatsHandlerFun)
}

type verifService struct {
	name, pkg, endpoint, ts string
	methods                 []verifMethod
	proxy                   func(rec *verifRec, endpoint string) http.Handler
	defaultProxy            func(rec *verifRec) http.Handler
	client                  func(url, endpoint string, c gotsrpc.Client) interface{}
	defaultClient           func(url string) interface{}
	gorpc                   func(addr string, rec *verifRec) verifGoRPC
	gorpcClient             func(addr string) (interface{}, *gorpc.Client)
	handler                 func(rec *verifRec, stats gotsrpc.GoRPCCallStatsHandlerFun) func(string, interface{}) interface{}
}

func verifAs[T any](rets []interface{}, i int) T {
	var z T
	if i < len(rets) {
		if v, ok := rets[i].(T); ok {
			return v
		}
	}
	return z
}

func verifType[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

type verifRun struct {
	t    *testing.T
	rng  *rand.Rand
	n    int
	bad  int
	vals []string
	seen map[string]bool
}

func newVerifRun(t *testing.T) *verifRun {
	log.SetOutput(io.Discard)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v := &verifRun{t: t, rng: rand.New(rand.NewSource(int64(seed) + 7))}
	if b, err := os.ReadFile(os.Getenv("VERIF_VALUES")); err == nil {
		_ = json.Unmarshal(b, &v.vals)
	}
	t.Cleanup(func() { fmt.Printf("VERIF-EXEC %d\n", v.n) })
	return v
}

func (v *verifRun) rounds(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 20
	}
	return quick
}

func (v *verifRun) ok(cond bool, format string, args ...interface{}) bool {
	v.n++
	if !cond {
		v.bad++
		if v.bad <= 5 {
			m := fmt.Sprintf(format, args...)
			if len(m) > 600 {
				m = m[:600] + "…"
			}
			fmt.Printf("VERIF-FAIL %s\n", m)
		}
		v.t.Fail()
	}
	return cond
}

// known: a failure listed in known_findings.txt under this name.
func (v *verifRun) known(name string, cond bool, format string, args ...interface{}) {
	v.n++
	if !cond && !v.seen[name] {
		if v.seen == nil {
			v.seen = map[string]bool{}
		}
		v.seen[name] = true
		fmt.Printf("VERIF-KNOWN %s %s\n", name, fmt.Sprintf(format, args...))
	}
}

func verifTry(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func verifQuiet(f func()) {
	e := os.Stderr
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = n
		defer n.Close()
	}
	defer func() { os.Stderr = e }()
	f()
}

func (v *verifRun) str() string {
	if len(v.vals) > 0 && v.rng.Intn(3) == 0 {
		if s := strings.ToValidUTF8(v.vals[v.rng.Intn(len(v.vals))], "?"); s != "" {
			return s
		}
	}
	parts := []string{"a", "b", ": ", "\"", "Ä", "foo", " ", "1", "\n", "{}", "null"}
	s := ""
	for i := v.rng.Intn(3); i >= 0; i-- {
		s += parts[v.rng.Intn(len(parts))]
	}
	return s
}

// value: a value of the type; rich ones have no zero parts.
func (v *verifRun) value(t reflect.Type, rich bool, depth int) reflect.Value {
	r := v.rng
	x := reflect.New(t).Elem()
	if t == reflect.TypeOf(time.Time{}) {
		x.Set(reflect.ValueOf(time.UnixMilli(1 + r.Int63n(4102444800000)).UTC()))
		return x
	}
	switch t.Kind() {
	case reflect.String:
		x.SetString(v.str())
	case reflect.Bool:
		x.SetBool(rich || r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := int64(1 + r.Intn(100))
		if !rich && r.Intn(2) == 0 {
			n = -n
		}
		x.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x.SetUint(uint64(1 + r.Intn(100)))
	case reflect.Float32, reflect.Float64:
		x.SetFloat(float64(1+r.Intn(64)) / 4)
	case reflect.Ptr:
		if t.Implements(verifType[error]()) && !rich || depth > 3 {
			return x // errors are translated on the way, see C10 and C11
		}
		if rich || r.Intn(3) > 0 {
			p := reflect.New(t.Elem())
			p.Elem().Set(v.value(t.Elem(), rich, depth+1))
			x.Set(p)
		}
	case reflect.Slice:
		if depth > 3 {
			return x
		}
		n := r.Intn(3)
		if rich {
			n = 1 + r.Intn(2)
		}
		x.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			x.Index(i).Set(v.value(t.Elem(), rich, depth+1))
		}
	case reflect.Map:
		if depth > 3 {
			return x
		}
		x.Set(reflect.MakeMap(t))
		n := 1 + r.Intn(2)
		for i := 0; i < n; i++ {
			x.SetMapIndex(v.value(t.Key(), rich, depth+1), v.value(t.Elem(), true, depth+2))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				x.Field(i).Set(v.value(t.Field(i).Type, rich, depth+1))
			}
		}
	}
	if t.Kind() == reflect.String && t.Implements(verifType[error]()) && !rich {
		x.SetString("")
	}
	return x
}

func (v *verifRun) values(ts []reflect.Type, rich bool) (out []interface{}) {
	for _, t := range ts {
		out = append(out, v.value(t, rich, 0).Interface())
	}
	return
}

// verifSame: equal, taking nil and empty lists for the same.
func verifSame(a, b interface{}) bool { return verifSameV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func verifSameV(a, b reflect.Value) bool {
	for a.IsValid() && a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return verifNil(a) && verifNil(b)
	}
	if a.Type() != b.Type() {
		return false
	}
	if t, ok := a.Interface().(time.Time); ok {
		return t.Equal(b.Interface().(time.Time))
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return verifSameV(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !verifSameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if w := b.MapIndex(k); !w.IsValid() || !verifSameV(a.MapIndex(k), w) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !verifSameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func verifNil(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice:
		return v.IsNil()
	}
	return false
}

func verifShow(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x)
	}
	return string(b)
}

func verifAllSame(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !verifSame(a[i], b[i]) {
			return false
		}
	}
	return true
}

type verifRT func(r *http.Request) (*http.Response, error)

func (f verifRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

var verifEncodings = []gotsrpc.ClientEncoding{gotsrpc.EncodingMsgpack, gotsrpc.EncodingJson}

func verifClient(enc gotsrpc.ClientEncoding, rt verifRT) gotsrpc.Client {
	c := gotsrpc.NewClient()
	c.SetClientEncoding(enc)
	c.SetTransportHttpClient(&http.Client{Transport: rt})
	return c
}

// invoke calls a method of a generated client; its last result is the client's error.
func verifInvoke(client interface{}, name string, lead []interface{}, types []reflect.Type, args []interface{}) (rets []interface{}, err error, missing bool) {
	m := reflect.ValueOf(client).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != len(lead)+len(args) {
		return nil, nil, true
	}
	var in []reflect.Value
	for _, l := range lead {
		in = append(in, reflect.ValueOf(l))
	}
	for i, a := range args {
		x := reflect.New(types[i]).Elem()
		if a != nil {
			x.Set(reflect.ValueOf(a))
		}
		in = append(in, x)
	}
	for i := range in {
		if !in[i].Type().AssignableTo(m.Type().In(i)) {
			return nil, nil, true
		}
	}
	out := m.Call(in)
	for _, o := range out[:len(out)-1] {
		rets = append(rets, o.Interface())
	}
	err, _ = out[len(out)-1].Interface().(error)
	return
}

// body: the request body a client sends for these arguments, and its content type.
func (s *verifService) body(enc gotsrpc.ClientEncoding, m verifMethod, args []interface{}) (body []byte, ct string) {
	verifInvoke(s.client("http://x", s.endpoint, verifClient(enc, func(r *http.Request) (*http.Response, error) {
		body, _ = io.ReadAll(r.Body)
		ct = r.Header.Get("Content-Type")
		return nil, errors.New("recorded")
	})), m.name, []interface{}{context.Background()}, m.args, args)
	return
}

func verifEncode(enc gotsrpc.ClientEncoding, args []interface{}) (b []byte, ct string) {
	ct = "application/json; charset=utf-8"
	if enc == gotsrpc.EncodingMsgpack {
		ct = "application/msgpack; charset=utf-8"
		_ = gotsrpc.NewMSGPackEncoderBytes(&b).Encode(args)
		return
	}
	jh := new(codec.JsonHandle)
	jh.MapKeyAsString = true
	jh.TimeNotBuiltin = true
	_ = jh.SetInterfaceExt(reflect.TypeOf(time.Time{}), 1, verifTimeExt{})
	out := make([]interface{}, len(args))
	for i, a := range args {
		if t, ok := a.(time.Time); ok {
			a = t.UnixMilli()
		}
		out[i] = a
	}
	_ = codec.NewEncoderBytes(&b, jh).Encode(out)
	return
}

func hasTime(args []interface{}) bool {
	for _, a := range args {
		if _, ok := a.(time.Time); ok {
			return true
		}
	}
	return false
}

// scalarError: a result is of an error type that is a string or a number.
func (m verifMethod) scalarError() bool {
	for _, t := range m.rets {
		if t.Kind() == reflect.String && t.Implements(verifType[error]()) {
			return true
		}
	}
	return false
}

type verifTimeExt struct{}

func (verifTimeExt) ConvertExt(v interface{}) interface{} {
	switch t := v.(type) {
	case time.Time:
		return t.UnixMilli()
	case *time.Time:
		return t.UnixMilli()
	}
	return nil
}
func (verifTimeExt) UpdateExt(dst interface{}, src interface{}) {}

// decode reads a reply back with the client's own decoding.
func (s *verifService) decode(m verifMethod, ct string, status int, body []byte) ([]interface{}, error) {
	rets, err, _ := verifInvoke(s.client("http://x", s.endpoint, verifClient(gotsrpc.EncodingMsgpack, func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: status, Header: http.Header{"Content-Type": {ct}}, Body: io.NopCloser(bytes.NewReader(body))}, nil
	})), m.name, []interface{}{context.Background()}, m.args, zeroArgs(m.args))
	return rets, err
}

func zeroArgs(ts []reflect.Type) (out []interface{}) {
	for _, t := range ts {
		out = append(out, reflect.Zero(t).Interface())
	}
	return
}

func verifPost(h http.Handler, verb, path, ct string, body []byte, stats bool) (w *httptest.ResponseRecorder, r *http.Request) {
	w = httptest.NewRecorder()
	r = httptest.NewRequest(verb, "http://x/", bytes.NewReader(body))
	r.URL.Path = path
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	if stats {
		r = gotsrpc.RequestWithStatsContext(r)
	}
	verifQuiet(func() { h.ServeHTTP(w, r) })
	return
}

// C01
func verifDispatch(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	rec := &verifRec{rets: map[string][]interface{}{}}
	for i := 0; i < v.rounds(4); i++ {
		for _, endpoint := range []string{s.endpoint, "", "/a/b", "/" + s.methods[0].name} {
			h := s.proxy(rec, endpoint)
			for _, m := range s.methods {
				rec.rets[m.name] = v.values(m.rets, false)
				for _, enc := range verifEncodings {
					args := v.values(m.args, false)
					body, ct := verifEncode(enc, args)
					path := endpoint + "/" + m.name
					w, _ := verifPost(h, "POST", path, ct, body, false)
					calls := rec.take()
					if v.ok(len(calls) == 1 && calls[0].name == m.name, "POST %s is answered by calling %s", path, verifNames(calls)) {
						v.ok(verifAllSame(calls[0].args, args), "POST %s with %s calls %s with %s", path, verifShow(args), m.name, verifShow(calls[0].args))
						v.ok(w.Code == 200, "POST %s is answered %d", path, w.Code)
					}
					if len(m.args) > 0 {
						for _, bad := range [][]byte{body[:len(body)-1], {}, body[:len(body)/2], []byte("\xc1"), []byte("{\"a\":")} {
							w, _ := verifPost(h, "POST", path, ct, bad, false)
							calls := rec.take()
							v.ok(len(calls) == 0 && w.Code == 400, "POST %s with the undecodable body %q is answered %d and calls %s", path, bad, w.Code, verifNames(calls))
						}
					}
					for _, verb := range []string{"GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "post", "", "BREW"} {
						if verb == "" {
							continue
						}
						w, _ := verifPost(h, verb, path, ct, body, false)
						calls := rec.take()
						want := 405
						if verb == "OPTIONS" {
							want = 200
						}
						v.ok(len(calls) == 0 && w.Code == want, "%s %s is answered %d and calls %s", verb, path, w.Code, verifNames(calls))
					}
					for _, p := range []string{path + "/", path + "x", endpoint + "/" + strings.ToLower(m.name[:1]) + m.name[1:], endpoint + "//" + m.name, "/other" + path, endpoint + m.name, endpoint + "/x/" + m.name, endpoint + "/" + m.name + "/" + m.name, endpoint, endpoint + "/", path + " ", "/x"} {
						if p == "" || p[0] != '/' || s.known(endpoint, p) {
							continue
						}
						w, _ := verifPost(h, "POST", p, ct, body, false)
						calls := rec.take()
						v.ok(len(calls) == 0 && w.Code == 404, "POST %s (endpoint %s) is answered %d and calls %s", p, endpoint, w.Code, verifNames(calls))
					}
				}
			}
		}
	}
}

func (s *verifService) known(endpoint, path string) bool {
	for _, m := range s.methods {
		if path == endpoint+"/"+m.name {
			return true
		}
	}
	return false
}

func verifNames(cs []verifCall) string {
	if len(cs) == 0 {
		return "nothing"
	}
	var n []string
	for _, c := range cs {
		n = append(n, c.name)
	}
	return strings.Join(n, ", ")
}

func (v *verifRun) exactly(ct string, body []byte, n int) bool {
	if strings.HasPrefix(ct, "application/msgpack") {
		var x []interface{}
		d := gotsrpc.NewMSGPackDecoderBytes(body)
		return d.Decode(&x) == nil && len(x) == n && d.NumBytesRead() == len(body)
	}
	var x []json.RawMessage
	return json.Unmarshal(body, &x) == nil && len(x) == n
}

// elements: the reply's values, each decoded for itself.
func (v *verifRun) elements(m verifMethod, body []byte) (out []interface{}) {
	var raw []interface{}
	for _, t := range m.rets {
		raw = append(raw, reflect.New(t).Interface())
	}
	_ = gotsrpc.NewMSGPackDecoderBytes(body).Decode(&raw)
	for i, t := range m.rets {
		x := reflect.New(t)
		if i < len(raw) {
			if p := reflect.ValueOf(raw[i]); p.IsValid() && p.Type() == x.Type() && !p.IsNil() {
				x = p
			}
		}
		out = append(out, x.Elem().Interface())
	}
	return
}

// C02
func verifReplies(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	rec := &verifRec{rets: map[string][]interface{}{}}
	h := s.proxy(rec, s.endpoint)
	for i := 0; i < v.rounds(20); i++ {
		for _, m := range s.methods {
			for _, enc := range verifEncodings {
				rec.rets[m.name] = v.values(m.rets, false)
				body, ct := verifEncode(enc, v.values(m.args, false))
				w, _ := verifPost(h, "POST", s.endpoint+"/"+m.name, ct, body, false)
				rec.take()
				v.ok(w.Code == 200 && w.Header().Get("Content-Type") == ct && w.Header().Get("Content-Length") == strconv.Itoa(w.Body.Len()), "%s is answered %d with headers %v and %d bytes", m.name, w.Code, w.Header(), w.Body.Len())
				v.ok(v.exactly(ct, w.Body.Bytes(), len(m.rets)), "%s's reply %q is not the encoding of its %d results", m.name, w.Body.Bytes(), len(m.rets))
				got, err := s.decode(m, w.Header().Get("Content-Type"), w.Code, w.Body.Bytes())
				if enc == gotsrpc.EncodingMsgpack && m.scalarError() {
					got, err = v.elements(m, w.Body.Bytes()), nil // the client cannot read it back, see C15
				}
				v.ok(err == nil && verifAllSame(got, rec.rets[m.name]), "%s returns %s, the reply carries %s (%v)", m.name, verifShow(rec.rets[m.name]), verifShow(got), err)
				// a reply that cannot be sent
				bw := &verifBrokenWriter{h: http.Header{}}
				r := httptest.NewRequest("POST", "http://x"+s.endpoint+"/"+m.name, bytes.NewReader(body))
				r.Header.Set("Content-Type", ct)
				verifQuiet(func() { h.ServeHTTP(bw, r) })
				rec.take()
			}
		}
	}
}

type verifBrokenWriter struct {
	h      http.Header
	status int
}

func (b *verifBrokenWriter) Header() http.Header         { return b.h }
func (b *verifBrokenWriter) WriteHeader(c int)           { b.status = c }
func (b *verifBrokenWriter) Write(p []byte) (int, error) { return 0, errors.New("broken") }

type verifFault struct{ msg string }

func (f *verifFault) Error() string  { return f.msg }
func (f *verifFault) ErrorCode() int { return 42 }

// C03
func verifMonitored(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	rec := &verifRec{rets: map[string][]interface{}{}}
	type heard struct {
		w          http.ResponseWriter
		r          *http.Request
		args, rets []interface{}
		stats      gotsrpc.CallStats
		own        bool
	}
	var hs []heard
	var own *gotsrpc.CallStats
	gotsrpc.Monitor = func(w http.ResponseWriter, r *http.Request, args, rets []interface{}, stats *gotsrpc.CallStats) {
		hs = append(hs, heard{w, r, append([]interface{}(nil), args...), append([]interface{}(nil), rets...), *stats, stats == own})
	}
	defer func() { gotsrpc.Monitor = gotsrpc.NoopMonitor }()
	h := s.proxy(rec, s.endpoint)
	for i := 0; i < v.rounds(20); i++ {
		for _, m := range s.methods {
			for _, enc := range verifEncodings {
				rets := v.values(m.rets, false)
				var e error
				if n := len(m.rets); n > 0 && m.rets[n-1] == verifType[error]() && v.rng.Intn(2) == 0 {
					if e = errors.New(v.str()); v.rng.Intn(2) == 0 {
						e = &verifFault{v.str()}
					}
					rets[n-1] = e
				}
				status := 200
				rec.hook = nil
				if m.http && v.rng.Intn(2) == 0 {
					status = 200 + v.rng.Intn(300)
					rec.hook = func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(status) }
				}
				rec.rets[m.name] = rets
				args := v.values(m.args, false)
				body, ct := verifEncode(enc, args)
				hs, own = nil, nil
				w := httptest.NewRecorder()
				r := httptest.NewRequest("POST", "http://x"+s.endpoint+"/"+m.name, bytes.NewReader(body))
				r.Header.Set("Content-Type", ct)
				withStats := v.rng.Intn(2) == 0
				if withStats {
					r = gotsrpc.RequestWithStatsContext(r)
					own, _ = gotsrpc.GetStatsForRequest(r)
				}
				verifQuiet(func() { h.ServeHTTP(w, r) })
				rec.take()
				if !v.ok(len(hs) == 1, "the monitor hears %d times of a call of %s (status %d)", len(hs), m.name, status) {
					continue
				}
				x := hs[0]
				v.ok(x.w == http.ResponseWriter(w) && x.r == r && x.own == withStats, "%s: the monitor gets this request, its writer and its statistics", m.name)
				var got []interface{}
				for _, a := range x.args {
					if rv := reflect.ValueOf(a); rv.Kind() == reflect.Ptr && !rv.IsNil() {
						a = rv.Elem().Interface()
					}
					got = append(got, a)
				}
				v.ok(verifAllSame(got, args), "%s is called with %s, the monitor gets %s", m.name, verifShow(args), verifShow(got))
				if status != 200 {
					rets = x.rets // nothing was sent back
					e = nil
				}
				same := len(x.rets) == len(rets)
				for k := 0; same && k < len(rets); k++ {
					if err, ok := rets[k].(error); ok && err != nil {
						same = reflect.DeepEqual(x.rets[k], rets[k])
					} else {
						same = verifSame(x.rets[k], rets[k])
					}
				}
				v.ok(same, "%s returned %T %s, the monitor gets %T %s", m.name, rets, verifShow(rets), x.rets, verifShow(x.rets))
				v.ok(x.stats.Func == m.name && x.stats.Service == s.name && x.stats.Package == s.pkg, "%s: statistics for %s.%s.%s", m.name, x.stats.Package, x.stats.Service, x.stats.Func)
				if len(m.args) > 0 {
					v.ok(x.stats.RequestSize == len(body), "%s: request size %d instead of %d", m.name, x.stats.RequestSize, len(body))
				}
				if status == 200 {
					v.ok(x.stats.ResponseSize == w.Body.Len(), "%s: response size %d instead of %d", m.name, x.stats.ResponseSize, w.Body.Len())
					code := 0
					if e != nil {
						code = 1
						if f, ok := e.(*verifFault); ok {
							code = f.ErrorCode()
						}
						v.ok(x.stats.ErrorCode == code && x.stats.ErrorMessage == e.Error() && x.stats.ErrorType == fmt.Sprintf("%T", e), "%s returned %T %q, the statistics say %q %q %d", m.name, e, e, x.stats.ErrorType, x.stats.ErrorMessage, x.stats.ErrorCode)
					} else {
						v.ok(x.stats.ErrorCode == 0 && x.stats.ErrorMessage == "" && x.stats.ErrorType == "", "%s returned no error, the statistics say %q %q %d", m.name, x.stats.ErrorType, x.stats.ErrorMessage, x.stats.ErrorCode)
					}
				}
			}
		}
	}
}

// C04: an unknown function clears the statistics, a known one keeps them.
func verifUnknown(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	rec := &verifRec{rets: map[string][]interface{}{}}
	n := 0
	h := gotsrpc.InstrumentedService(s.proxy(rec, s.endpoint).ServeHTTP, func(st *gotsrpc.CallStats) { n++ })
	for _, m := range s.methods {
		rec.rets[m.name] = v.values(m.rets, false)
		body, ct := verifEncode(gotsrpc.EncodingJson, v.values(m.args, false))
		n = 0
		verifPost(h, "POST", s.endpoint+"/"+m.name, ct, body, false)
		v.ok(n == 1, "a call of %s is reported %d times", m.name, n)
		n = 0
		verifPost(h, "POST", s.endpoint+"/"+m.name+"x", ct, body, false)
		v.ok(n == 0, "a call of the unknown %sx is reported %d times", m.name, n)
	}
}

// C06
func verifSessions(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	rec := &verifRec{rets: map[string][]interface{}{}}
	h := s.proxy(rec, s.endpoint)
	for i := 0; i < v.rounds(30); i++ {
		for _, m := range s.methods {
			if !m.http {
				continue
			}
			for _, enc := range verifEncodings {
				for _, status := range []int{0, 200, 201, 204, 299, 302, 400, 401, 404, 500, 503, 599} {
					rec.rets[m.name] = v.values(m.rets, false)
					args := v.values(m.args, false)
					body, ct := verifEncode(enc, args)
					text := v.str()
					if v.rng.Intn(2) == 0 {
						text = ""
					}
					var before, after int
					var gotR *http.Request
					rec.hook = func(w http.ResponseWriter, r *http.Request) {
						gotR = r
						w.Header().Set("X-Session", text+"1")
						if x, ok := w.(interface{ Status() int }); ok {
							before = x.Status()
						}
						if status != 0 {
							w.WriteHeader(status)
						}
						if text != "" {
							_, _ = w.Write([]byte(text))
						}
						if x, ok := w.(interface{ Status() int }); ok {
							after = x.Status()
						}
					}
					w := &verifLogWriter{h: http.Header{}}
					r := httptest.NewRequest("POST", "http://x"+s.endpoint+"/"+m.name, bytes.NewReader(body))
					r.Header.Set("Content-Type", ct)
					verifQuiet(func() { h.ServeHTTP(w, r) })
					calls := rec.take()
					if !v.ok(len(calls) == 1 && verifAllSame(calls[0].args, args), "%s is called", m.name) {
						continue
					}
					v.ok(gotR == r, "%s gets the request itself", m.name)
					v.ok(w.h.Get("X-Session") == text+"1", "%s's headers reach the response", m.name)
					want := status
					if want == 0 {
						want = 200
					}
					v.ok(before == 200 && after == want, "%s: the writer reports %d before and %d after status %d was set", m.name, before, after, status)
					out := w.b.String()
					if !v.ok(strings.HasPrefix(out, text), "%s wrote %q, the response is %q", m.name, text, out) {
						continue
					}
					reply := []byte(out[len(text):])
					if want != 200 {
						v.ok(len(reply) == 0 && len(w.st) == 1 && w.st[0] == status, "%s answered with status %d; the response is %v %q", m.name, status, w.st, out)
						continue
					}
					got, err := s.decode(m, w.h.Get("Content-Type"), 200, reply)
					v.ok(err == nil && v.exactly(ct, reply, len(m.rets)) && verifAllSame(got, rec.rets[m.name]), "%s (status %d) returns %s, the reply is %q (%v)", m.name, status, verifShow(rec.rets[m.name]), reply, err)
				}
			}
		}
	}
}

type verifLogWriter struct {
	h  http.Header
	st []int
	b  bytes.Buffer
}

func (b *verifLogWriter) Header() http.Header         { return b.h }
func (b *verifLogWriter) WriteHeader(c int)           { b.st = append(b.st, c) }
func (b *verifLogWriter) Write(p []byte) (int, error) { return b.b.Write(p) }

// C14
type VerifNobodyRequest struct{ A int }

func verifGoRPCCalls(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	rec := &verifRec{rets: map[string][]interface{}{}}
	var mu sync.Mutex
	var stats []gotsrpc.CallStats
	handle := func(st *gotsrpc.CallStats) {
		mu.Lock()
		defer mu.Unlock()
		stats = append(stats, *st)
	}
	taken := func() []gotsrpc.CallStats {
		mu.Lock()
		defer mu.Unlock()
		x := stats
		stats = nil
		return x
	}
	h := s.handler(rec, handle)
	quiet := s.handler(rec, nil)
	var nothing []interface{} = []interface{}{"text", 5, VerifNobodyRequest{1}, struct{ B int }{2}, map[string]int{}, &VerifNobodyRequest{}}
	for _, q := range nothing {
		var resp interface{}
		verifTry(func() { resp = h("", q) })
		calls := rec.take()
		v.ok(len(calls) == 0 && resp == nil, "a request of type %T calls %s and gets %v", q, verifNames(calls), resp)
	}
	taken()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	addr := l.Addr().String()
	l.Close()
	srv := s.gorpc(addr, rec)
	srv.SetCallStatsHandler(handle)
	if err := srv.Start(); err != nil {
		return
	}
	defer srv.Stop()
	client, raw := s.gorpcClient(addr)
	raw.LogError = gorpc.NilErrorLogger
	raw.Start()
	defer raw.Stop()
	for i := 0; i < v.rounds(10); i++ {
		for _, m := range s.methods {
			rets := v.values(m.rets, true)
			for k, t := range m.rets {
				if t == verifType[error]() {
					rets[k] = nil
				}
			}
			args := v.values(m.args, true)
			rec.rets[m.name] = rets
			rec.delay = 0
			if i == 0 {
				rec.delay = 3 * time.Millisecond
			}
			taken()
			got, err, missing := verifInvoke(client, m.name, nil, m.args, args)
			if !v.ok(!missing, "the GoRPC client has no %s with the service's arguments", m.name) {
				continue
			}
			calls := rec.take()
			if v.ok(len(calls) == 1 && calls[0].name == m.name, "calling %s through GoRPC calls %s", m.name, verifNames(calls)) {
				v.ok(verifAllSame(calls[0].args, args), "calling %s with %s through GoRPC calls it with %s", m.name, verifShow(args), verifShow(calls[0].args))
			}
			v.ok(err == nil && verifAllSame(got, rets), "%s returned %s, the GoRPC client returns %s (%v)", m.name, verifShow(rets), verifShow(got), err)
			st := taken()
			if v.ok(len(st) == 1, "the statistics handler hears %d times of a call of %s", len(st), m.name) {
				v.ok(st[0].Package == s.pkg && st[0].Service == s.name && st[0].Execution >= rec.delay && st[0].Execution < time.Minute, "%s (%v long): statistics %+v", m.name, rec.delay, st[0])
				v.ok(st[0].Func == m.name || strings.Contains(st[0].Func, m.name), "%s: statistics for %q", m.name, st[0].Func)
			}
			_ = quiet
		}
	}
	rec.delay = 0
	// a failing call: the client's error, no result
	srv.Stop()
	raw.RequestTimeout = 50 * time.Millisecond
	for _, m := range s.methods[:1] {
		_, err, _ := verifInvoke(client, m.name, nil, m.args, v.values(m.args, true))
		v.ok(err != nil, "calling %s on a stopped server fails", m.name)
	}
	_ = srv.Start()
}

// C15: the Go client against the proxy, and what it asks of its transport.
type verifAsked struct {
	ctx                   context.Context
	url, endpoint, method string
	args, reply           []interface{}
	n                     int
	err                   error
	fill                  []interface{}
}

func (a *verifAsked) Call(ctx context.Context, url string, endpoint string, method string, args []interface{}, reply []interface{}) error {
	a.n++
	a.ctx, a.url, a.endpoint, a.method, a.args, a.reply = ctx, url, endpoint, method, args, reply
	for i, x := range a.fill {
		if i < len(reply) && x != nil {
			p := reflect.ValueOf(reply[i])
			if p.Kind() == reflect.Ptr && reflect.TypeOf(x).AssignableTo(p.Type().Elem()) {
				p.Elem().Set(reflect.ValueOf(x))
			}
		}
	}
	return a.err
}
func (a *verifAsked) SetClientEncoding(gotsrpc.ClientEncoding)   {}
func (a *verifAsked) SetTransportHttpClient(client *http.Client) {}
func (a *verifAsked) SetDefaultHeaders(http.Header)              {}

type verifCtxKey struct{}

func verifClients(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	rec := &verifRec{rets: map[string][]interface{}{}}
	for i := 0; i < v.rounds(20); i++ {
		for _, m := range s.methods {
			rets := v.values(m.rets, true)
			for k, t := range m.rets {
				if t == verifType[error]() {
					rets[k] = errors.New(v.str())
				}
			}
			args := v.values(m.args, false)
			a := &verifAsked{fill: rets}
			if v.rng.Intn(3) == 0 {
				a.err = errors.New("failed")
			}
			ctx := context.WithValue(context.Background(), verifCtxKey{}, i)
			got, err, missing := verifInvoke(s.client("http://u", "/e", a), m.name, []interface{}{ctx}, m.args, args)
			if !v.ok(!missing, "the Go client has no %s with the service's arguments", m.name) {
				continue
			}
			v.ok(a.n == 1 && a.ctx == ctx && a.url == "http://u" && a.endpoint == "/e" && a.method == m.name, "%s: the client calls %d times, %q %q %q", m.name, a.n, a.url, a.endpoint, a.method)
			v.ok(verifAllSame(a.args, args), "%s called with %s sends %s", m.name, verifShow(args), verifShow(a.args))
			v.ok(len(a.reply) == len(m.rets) && verifAllSame(got, rets), "%s: the reply %s arrives as %s", m.name, verifShow(rets), verifShow(got))
			v.ok((err == nil) == (a.err == nil), "%s: the call's error %v arrives as %v", m.name, a.err, err)

			// together with the proxy
			for _, enc := range verifEncodings {
				args := v.values(m.args, false)
				rec.rets[m.name] = v.values(m.rets, false)
				var path string
				def := s.defaultProxy(rec)
				c := s.defaultClient("http://x")
				f := reflect.ValueOf(c).Elem().FieldByName("Client")
				if !f.IsValid() {
					continue
				}
				f.Set(reflect.ValueOf(verifClient(enc, func(r *http.Request) (*http.Response, error) {
					path = r.URL.Path
					w := httptest.NewRecorder()
					verifQuiet(func() { def.ServeHTTP(w, r) })
					return w.Result(), nil
				})))
				got, err, missing := verifInvoke(c, m.name, []interface{}{context.Background()}, m.args, args)
				calls := rec.take()
				if missing {
					continue
				}
				if enc == gotsrpc.EncodingJson && hasTime(args) {
					v.known("json-time-element", err == nil && len(calls) == 1 && verifAllSame(calls[0].args, args), "%s called with %s through a JSON client: %v", m.name, verifShow(args), err)
					continue
				}
				if enc == gotsrpc.EncodingMsgpack && m.scalarError() {
					v.known("msgpack-zero-scalar-error", err == nil && len(calls) == 1 && verifAllSame(got, rec.rets[m.name]), "%s returned %s, through client and proxy: %v", m.name, verifShow(rec.rets[m.name]), err)
					continue
				}
				v.ok(path == s.endpoint+"/"+m.name, "%s: the default client calls %s", m.name, path)
				v.ok(len(calls) == 1 && calls[0].name == m.name && verifAllSame(calls[0].args, args), "%s called with %s through client and proxy calls %s %s", m.name, verifShow(args), verifNames(calls), verifShow(calls))
				v.ok(err == nil && verifAllSame(got, rec.rets[m.name]), "%s returned %s, through client and proxy %s (%v)", m.name, verifShow(rec.rets[m.name]), verifShow(got), err)
			}
		}
	}
}

// C15: the TypeScript client, transpiled and run.
const verifTSDriver = `
const fs = require("fs"), path = require("path"), Module = require("module");
const ts = require(process.env.VERIF_TSLIB);
function load(file) {
  const js = ts.transpileModule(fs.readFileSync(file, "utf8"), {compilerOptions: {module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020}, reportDiagnostics: true});
  const bad = (js.diagnostics || []).map(d => ts.flattenDiagnosticMessageText(d.messageText, " "));
  if (bad.length) { console.log(JSON.stringify({broken: bad.join("; ")})); process.exit(0); }
  const m = {exports: {}};
  new Function("module", "exports", "require", js.outputText)(m, m.exports, () => ({}));
  return m.exports;
}
const job = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
const mod = load(job.file);
(async () => {
  const out = [];
  const C = mod[job.cls];
  for (const m of job.methods) {
    let asked = [];
    const c = new C((method, data) => { asked.push([method, data]); return Promise.resolve(m.results); });
    let ret = null, missing = typeof c[m.ts] !== "function";
    if (!missing) { ret = await c[m.ts](...m.args); }
    out.push({missing, asked, ret: ret === undefined ? null : ret});
  }
  console.log(JSON.stringify({endpoint: C.defaultEndpoint, out}));
})().catch(e => { console.log(JSON.stringify({broken: String(e)})); });
`

func verifTS(t *testing.T, s *verifService) {
	v := newVerifRun(t)
	lib := "/opt/veriftools/node/node_modules/typescript"
	file := filepath.Join(os.Getenv("VERIF_TS"), s.ts)
	if _, err := os.Stat(lib); err != nil || os.Getenv("VERIF_TS") == "" {
		return
	}
	if _, err := exec.LookPath("node"); err != nil {
		return
	}
	dir := t.TempDir()
	type jm struct {
		TS      string        `json:"ts"`
		Args    []interface{} `json:"args"`
		Results []interface{} `json:"results"`
	}
	var ms []jm
	for _, m := range s.methods {
		j := jm{TS: strings.ToLower(m.name[:1]) + m.name[1:], Args: []interface{}{}, Results: []interface{}{}}
		for i := range m.args {
			j.Args = append(j.Args, fmt.Sprintf("argument %d", i))
		}
		for i := range m.rets {
			j.Results = append(j.Results, fmt.Sprintf("result %d", i))
		}
		ms = append(ms, j)
	}
	job, _ := json.Marshal(map[string]interface{}{"file": file, "cls": s.name + "Client", "methods": ms})
	_ = os.WriteFile(filepath.Join(dir, "job.json"), job, 0o644)
	_ = os.WriteFile(filepath.Join(dir, "driver.js"), []byte(verifTSDriver), 0o644)
	cmd := exec.Command("node", "driver.js", "job.json")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_TSLIB="+lib)
	out, err := cmd.Output()
	if err != nil {
		t.Logf("node: %v", err)
		return
	}
	var res struct {
		Broken   string
		Endpoint string
		Out      []struct {
			Missing bool
			Asked   [][]json.RawMessage
			Ret     json.RawMessage
		}
	}
	if !v.ok(json.Unmarshal(out, &res) == nil && res.Broken == "", "the TypeScript client does not work: %s%s", res.Broken, out) {
		return
	}
	v.ok(res.Endpoint == s.endpoint, "the TypeScript client's endpoint is %q", res.Endpoint)
	for i, m := range s.methods {
		if i >= len(res.Out) {
			break
		}
		o := res.Out[i]
		if !v.ok(!o.Missing, "the TypeScript client has no %s", m.name) {
			continue
		}
		var method string
		var data []interface{}
		if v.ok(len(o.Asked) == 1 && len(o.Asked[0]) == 2, "the TypeScript client calls %d times for %s", len(o.Asked), m.name) {
			_ = json.Unmarshal(o.Asked[0][0], &method)
			_ = json.Unmarshal(o.Asked[0][1], &data)
			v.ok(method == m.name && verifShow(append([]interface{}{}, data...)) == verifShow(ms[i].Args), "the TypeScript client calls %q with %s for %s%s", method, verifShow(data), m.name, verifShow(ms[i].Args))
		}
		switch len(m.rets) {
		case 0:
		case 1:
			v.ok(string(o.Ret) == `"result 0"`, "the TypeScript client's %s returns %s", m.name, o.Ret)
		default:
			want := map[string]string{}
			for k, n := range m.retNames {
				if n == "" {
					n = "ret"
					if k > 0 {
						n = fmt.Sprintf("ret_%d", k)
					}
				}
				want[n] = fmt.Sprintf("result %d", k)
			}
			a, _ := json.Marshal(want)
			var got map[string]string
			_ = json.Unmarshal(o.Ret, &got)
			b, _ := json.Marshal(got)
			v.ok(string(a) == string(b), "the TypeScript client's %s returns %s instead of %s", m.name, o.Ret, a)
		}
	}
}
