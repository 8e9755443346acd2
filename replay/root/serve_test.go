package gotsrpc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/ugorji/go/codec"
)

const (
	verifMsgpack = "application/msgpack; charset=utf-8"
	verifJSON    = "application/json; charset=utf-8"
)

// verifEnc encodes with the codec settings the wire format is made of.
func verifEnc(msgpack bool, v interface{}) string {
	var b bytes.Buffer
	h := jsonClientHandle.handle
	if msgpack {
		h = msgpackClientHandle.handle
	}
	if err := codec.NewEncoder(&b, h).Encode(v); err != nil {
		return "encoding error: " + err.Error()
	}
	return b.String()
}

// verifBadValue cannot be encoded.
type verifBadValue struct{ A int }

func (verifBadValue) MarshalJSON() ([]byte, error)   { return nil, errors.New("no JSON") }
func (verifBadValue) MarshalText() ([]byte, error)   { return nil, errors.New("no text") }
func (verifBadValue) MarshalBinary() ([]byte, error) { return nil, errors.New("no binary") }
func (*verifBadValue) UnmarshalJSON([]byte) error    { return errors.New("no JSON") }
func (*verifBadValue) UnmarshalText([]byte) error    { return errors.New("no text") }
func (*verifBadValue) UnmarshalBinary([]byte) error  { return errors.New("no binary") }

// verifWriter records what reaches the caller.
type verifWriter struct {
	h       http.Header
	status  []int
	writes  []string
	ct, cl  string
	failing bool
	partial bool
}

func (w *verifWriter) Header() http.Header { return w.h }
func (w *verifWriter) WriteHeader(s int)   { w.status = append(w.status, s) }
func (w *verifWriter) Write(b []byte) (int, error) {
	if len(w.writes) == 0 {
		w.ct, w.cl = w.h.Get("Content-Type"), w.h.Get("Content-Length")
	}
	w.writes = append(w.writes, string(b))
	if w.failing {
		return 0, errors.New("broken pipe")
	}
	return len(b), nil
}

var verifTypes = []string{verifMsgpack, verifJSON, "", "application/json", "application/msgpack", "text/plain", "APPLICATION/MSGPACK; CHARSET=UTF-8", "application/msgpack;charset=utf-8", "application/msgpack; charset=utf-8; x=y", "application/x-msgpack; charset=utf-8"}

func (v *verifRun) contentType() string {
	if v.rng.Intn(8) == 0 {
		return v.str()
	}
	return verifTypes[v.rng.Intn(len(verifTypes))]
}

func (v *verifRun) plainValue() interface{} {
	switch v.rng.Intn(10) {
	case 0:
		return nil
	case 1:
		return v.str()
	case 2:
		return v.rng.Intn(1000) - 500
	case 3:
		return []string{v.str(), v.str()}
	case 4:
		return map[string]interface{}{"a": v.rng.Intn(5)}
	case 5:
		return struct{ A, B string }{v.str(), "b"}
	case 6:
		return v.rng.Intn(2) == 0
	case 7:
		return strings.Repeat("x", v.rng.Intn(9000))
	case 8:
		return [][]int{{1}, {}, nil}
	default:
		return []byte{1, 2, 3}
	}
}

type verifCoded struct {
	Msg  string
	Code int
}

func (e verifCoded) Error() string  { return e.Msg }
func (e verifCoded) ErrorCode() int { return e.Code }

type verifCodedPtr struct{ Msg string }

func (e *verifCodedPtr) Error() string  { return e.Msg }
func (e *verifCodedPtr) ErrorCode() int { return len(e.Msg) }

func (v *verifRun) lastError() interface{} {
	switch v.rng.Intn(9) {
	case 0:
		return errors.New(v.str())
	case 1:
		return verifCoded{v.str(), v.rng.Intn(900) - 3}
	case 2:
		return &verifCodedPtr{v.str() + "x"}
	case 3:
		var e *verifCodedPtr
		return e
	case 4:
		return verifCoded{}
	case 5:
		return fmt.Errorf("w: %w", verifCoded{v.str(), 7})
	case 6:
		return &Error{Msg: v.str(), Type: "t", Pkg: "p"}
	case 7:
		var e error
		return e
	default:
		return verifErrString(v.str())
	}
}

func verifRequest(ct, body string) *http.Request {
	r := httptest.NewRequest(http.MethodPost, "/endpoint/Method", strings.NewReader(body))
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	return r
}

// what the wire carries for these values
func verifWire(msgpack bool, vals []interface{}) []interface{} {
	out := make([]interface{}, len(vals))
	for i, x := range vals {
		out[i] = x
		if e, ok := x.(error); ok && msgpack && !reflect.ValueOf(e).IsZero() {
			out[i] = NewError(e)
		}
	}
	if vals == nil {
		return nil
	}
	return out
}

func TestVerifC02_Reply(t *testing.T) {
	v := newVerifRun(t)
	verifSilence(func() {
		for i := 0; i < v.rounds(800); i++ {
			vals := make([]interface{}, v.rng.Intn(6))
			for k := range vals {
				vals[k] = v.plainValue()
				if v.rng.Intn(4) == 0 {
					vals[k] = v.lastError()
				}
			}
			bad := v.rng.Intn(6) == 0 && len(vals) > 0
			if bad {
				vals[v.rng.Intn(len(vals))] = verifBadValue{1}
				if v.rng.Intn(2) == 0 {
					vals[0] = strings.Repeat("long", 5000)
					vals[len(vals)-1] = verifBadValue{2}
				}
			}
			ct := v.contentType()
			mp := ct == verifMsgpack
			want := ""
			if !bad {
				want = verifEnc(mp, verifWire(mp, vals))
			}
			orig := append([]interface{}{}, vals...)
			w := &verifWriter{h: http.Header{}}
			var stats *CallStats
			if v.rng.Intn(2) == 0 {
				stats = &CallStats{}
			}
			var err error
			p := verifTry(func() { err = Reply(vals, stats, verifRequest(ct, ""), w) })
			if !v.ok(p == nil, "Reply panics on %v: %v", orig, p) {
				continue
			}
			if bad {
				v.ok(err != nil && len(w.writes) == 0 && len(w.status) == 0, "%v cannot be encoded, but Reply gives %v and sends %.100q with status %v", kinds(orig), err, w.writes, w.status)
				if len(w.writes) == 0 {
					ErrorCouldNotReply(w)
					v.ok(len(w.status) == 1 && w.status[0] == 500, "the caller gets status %v for an unencodable reply", w.status)
				}
				continue
			}
			v.ok(err == nil, "Reply fails on %v: %v", orig, err)
			v.ok(len(w.writes) == 1, "the reply to %v is sent in %d pieces", orig, len(w.writes))
			got := strings.Join(w.writes, "")
			v.ok(got == want, "the reply to %v (content type %q) is %.200q, not %.200q", orig, ct, got, want)
			v.ok(w.cl == strconv.Itoa(len(got)), "Content-Length is %q for %d bytes", w.cl, len(got))
			wantCT := verifJSON
			if mp {
				wantCT = verifMsgpack
			}
			v.ok(w.ct == wantCT, "Content-Type is %q for a request of type %q", w.ct, ct)
			v.ok(len(w.status) == 0 || w.status[0] == 200, "a successful reply sets status %v", w.status)
		}
		w := &verifWriter{h: http.Header{}, failing: true}
		v.ok(Reply([]interface{}{1}, nil, verifRequest("", ""), w) != nil, "a failed write of the reply is not reported")
	})
}

func kinds(vs []interface{}) string {
	s := ""
	for _, v := range vs {
		s += fmt.Sprintf("%T ", v)
	}
	return s
}

func TestVerifC03_Stats(t *testing.T) {
	v := newVerifRun(t)
	verifSilence(func() {
		for i := 0; i < v.rounds(800); i++ {
			vals := make([]interface{}, v.rng.Intn(5))
			for k := range vals {
				vals[k] = v.plainValue()
				if v.rng.Intn(3) == 0 || k == len(vals)-1 && v.rng.Intn(3) > 0 {
					vals[k] = v.lastError()
				}
			}
			ct := v.contentType()
			w := &verifWriter{h: http.Header{}}
			stats := &CallStats{Func: "f", Package: "p", Service: "s", RequestSize: 17, Execution: 5}
			orig := append([]interface{}{}, vals...)
			err := Reply(vals, stats, verifRequest(ct, ""), w)
			if err != nil {
				continue
			}
			for k := range vals {
				v.ok(reflect.DeepEqual(vals[k], orig[k]) && reflect.TypeOf(vals[k]) == reflect.TypeOf(orig[k]), "returned value %d changes from %T(%v) to %T(%v)", k, orig[k], orig[k], vals[k], vals[k])
			}
			v.ok(stats.ResponseSize == len(strings.Join(w.writes, "")), "the response has %d bytes, the statistics say %d", len(strings.Join(w.writes, "")), stats.ResponseSize)
			v.ok(stats.Func == "f" && stats.Package == "p" && stats.Service == "s" && stats.RequestSize == 17 && stats.Execution == 5, "Reply changes the call's statistics to %+v", *stats)
			var last error
			if len(orig) > 0 {
				if e, ok := orig[len(orig)-1].(error); ok && !reflect.ValueOf(e).IsZero() {
					last = e
				}
			}
			if last == nil {
				v.ok(stats.ErrorCode == 0 && stats.ErrorType == "" && stats.ErrorMessage == "", "no error was returned (last value of %d: %v), the statistics say %d %s %q", len(orig), tailOf(orig), stats.ErrorCode, stats.ErrorType, stats.ErrorMessage)
			} else {
				code := 1
				if c, ok := last.(interface{ ErrorCode() int }); ok {
					code = c.ErrorCode()
				}
				v.ok(stats.ErrorType == fmt.Sprintf("%T", last) && stats.ErrorMessage == last.Error() && stats.ErrorCode == code, "the error %T(%q, code %d) appears in the statistics as %s %q, code %d", last, last, code, stats.ErrorType, stats.ErrorMessage, stats.ErrorCode)
			}
		}
		for i := 0; i < v.rounds(200); i++ {
			body := verifEnc(false, []interface{}{v.str(), v.rng.Intn(100)})
			var s string
			var n int
			args := []interface{}{&s, &n}
			stats := &CallStats{Func: "f"}
			r := verifRequest("", body)
			v.ok(LoadArgs(&args, stats, r) == nil && stats.RequestSize == len(body) && stats.Func == "f", "a request of %d bytes appears with size %d", len(body), stats.RequestSize)
		}
	})
}

func tailOf(vs []interface{}) interface{} {
	if len(vs) == 0 {
		return nil
	}
	return vs[len(vs)-1]
}

func TestVerifC05_Server(t *testing.T) {
	v := newVerifRun(t)
	verifSilence(func() {
		for i := 0; i < v.rounds(600); i++ {
			ct := v.contentType()
			mp := ct == verifMsgpack
			a, n := v.str(), v.rng.Intn(1000)
			written := v.rng.Intn(2) == 0
			var s string
			var k int
			args := []interface{}{&s, &k}
			err := LoadArgs(&args, nil, verifRequest(ct, verifEnc(written, []interface{}{a, n})))
			if written == mp {
				v.ok(err == nil && s == a && k == n, "arguments (%q, %d) announced as %q arrive as (%q, %d): %v", a, n, ct, s, k, err)
			} else {
				v.ok(err != nil || s != a || k != n, "arguments of a request announced as %q are read with the other codec", ct)
			}
			w := &verifWriter{h: http.Header{}}
			if err := Reply([]interface{}{a, n}, nil, verifRequest(ct, ""), w); err == nil {
				v.ok(strings.Join(w.writes, "") == verifEnc(mp, []interface{}{a, n}), "the reply to a request announced as %q has the wrong codec", ct)
				want := verifJSON
				if mp {
					want = verifMsgpack
				}
				v.ok(w.ct == want, "the reply to a request announced as %q is announced as %q", ct, w.ct)
			}
		}
	})
}

func TestVerifC01_Answers(t *testing.T) {
	v := newVerifRun(t)
	check := func(name string, f func(http.ResponseWriter), want int) {
		w := httptest.NewRecorder()
		f(w)
		v.ok(w.Code == want, "%s answers %d", name, w.Code)
	}
	check("ErrorFuncNotFound", ErrorFuncNotFound, 404)
	check("ErrorCouldNotLoadArgs", ErrorCouldNotLoadArgs, 400)
	check("ErrorMethodNotAllowed", ErrorMethodNotAllowed, 405)
	for i := 0; i < v.rounds(300); i++ {
		ep, name := "/"+strings.Trim(strings.ReplaceAll(v.str(), "\n", ""), " /"), "Method"
		r := httptest.NewRequest(http.MethodPost, "/", nil)
		r.URL.Path = ep + "/" + name
		v.ok(GetCalledFunc(r, ep) == name, "a call of %s under %q is read as %q", name, ep, GetCalledFunc(r, ep))
		for _, path := range []string{ep + name, ep + "/x/" + name, ep + "/" + name + "/", "/other/" + name, ep + "/" + name + "x", ep + "//" + name, "/" + ep + "/" + name} {
			r.URL.Path = path
			v.ok(GetCalledFunc(r, ep) != name, "a call of %q under %q is read as %q", path, ep, name)
		}
	}
	verifSilence(func() {
		for i := 0; i < v.rounds(300); i++ {
			mp := v.rng.Intn(2) == 0
			ct := ""
			if mp {
				ct = verifMsgpack
			}
			body := verifEnc(mp, []interface{}{"abc", 5})
			if c := v.rng.Intn(3); c == 0 {
				body = body[:v.rng.Intn(len(body))]
			} else if c == 1 {
				body = verifEnc(mp, []interface{}{5, "abc"})
			} else {
				body = "<" + body
			}
			var s string
			var n int
			args := []interface{}{&s, &n}
			v.ok(LoadArgs(&args, &CallStats{}, verifRequest(ct, body)) != nil, "undecodable arguments %q (%q) are accepted as (%q, %d)", body, ct, s, n)
		}
	})
}

func TestVerifC04_Instrumented(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(400); i++ {
		var inner []*CallStats
		var reqs []*http.Request
		var handled []*CallStats
		order := ""
		clear := false
		h := InstrumentedService(func(w http.ResponseWriter, r *http.Request) {
			order += "h"
			s, ok := GetStatsForRequest(r)
			v.ok(ok && s != nil, "an instrumented call has no statistics")
			inner = append(inner, s)
			reqs = append(reqs, r)
			if s != nil {
				v.ok(*s == CallStats{}, "a call starts with the statistics %+v", *s)
				s.Func = fmt.Sprint(len(inner))
			}
			if clear {
				ClearStats(r)
				s2, ok2 := GetStatsForRequest(r)
				v.ok(!ok2 && s2 != nil, "cleared statistics are still there")
			}
		}, func(s *CallStats) { order += "s"; handled = append(handled, s) })
		var shared *http.Request
		for n := 0; n < 4; n++ {
			clear = v.rng.Intn(3) == 0
			r := httptest.NewRequest(http.MethodPost, "/e/M", nil)
			type key string
			switch v.rng.Intn(4) {
			case 0:
				r = r.WithContext(context.WithValue(r.Context(), key("x"), n))
			case 1:
				r = RequestWithStatsContext(r)
			case 2:
				if shared != nil {
					r = shared
				}
			}
			shared = r
			before, had := len(inner), len(handled)
			order = ""
			v.ok(verifTry(func() { h(httptest.NewRecorder(), r) }) == nil, "the instrumented service panics")
			if !v.ok(len(inner) == before+1, "the handler runs %d times for one request", len(inner)-before) {
				break
			}
			if clear {
				v.ok(len(handled) == had, "cleared statistics are reported")
			} else if v.ok(len(handled) == had+1, "statistics are reported %d times for one call", len(handled)-had) {
				v.ok(handled[had] == inner[before], "other statistics than the call's own are reported")
				v.ok(order == "hs", "statistics are reported before the handler ends")
			}
			for k := 0; k < before; k++ {
				v.ok(inner[k] != inner[before], "two calls share one statistics object")
			}
		}
	}
	r := httptest.NewRequest(http.MethodPost, "/e/M", nil)
	s, ok := GetStatsForRequest(r)
	v.ok(s != nil && !ok, "a request without statistics: %v %v", s, ok)
}

func TestVerifC06_Writer(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(400); i++ {
		rec := &verifWriter{h: http.Header{}}
		rw := &ResponseWriter{ResponseWriter: rec}
		status := 200
		var wantStatus []int
		wantBody := ""
		for n := v.rng.Intn(5); n >= 0; n-- {
			v.ok(rw.Status() == status, "the writer reports status %d instead of %d", rw.Status(), status)
			switch v.rng.Intn(3) {
			case 0:
				if len(wantStatus) == 0 {
					status = []int{200, 201, 204, 302, 400, 404, 500}[v.rng.Intn(7)]
					rw.WriteHeader(status)
					wantStatus = append(wantStatus, status)
				}
			case 1:
				s := v.str()
				m, err := rw.Write([]byte(s))
				v.ok(m == len(s) && err == nil, "a write through the writer gives %d, %v", m, err)
				wantBody += s
			case 2:
				rw.Header().Set("X", strconv.Itoa(n))
				v.ok(rec.h.Get("X") == strconv.Itoa(n), "a header set through the writer does not reach the real one")
			}
		}
		v.ok(rw.Status() == status, "the writer reports status %d instead of %d", rw.Status(), status)
		v.ok(reflect.DeepEqual(rec.status, wantStatus), "the real writer got the statuses %v instead of %v", rec.status, wantStatus)
		v.ok(strings.Join(rec.writes, "") == wantBody, "the real writer got %q instead of %q", rec.writes, wantBody)
	}
}

var _ = io.EOF
