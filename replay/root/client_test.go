package gotsrpc

import (
	"context"
	"errors"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"
)

type verifTransport func(*http.Request) (*http.Response, error)

func (f verifTransport) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type verifBody struct {
	r      io.Reader
	fail   error
	closed bool
}

func (b *verifBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail != nil {
		err = b.fail
	}
	return n, err
}
func (b *verifBody) Close() error { b.closed = true; return nil }

func verifResponse(status int, ct string, body io.ReadCloser) *http.Response {
	h := http.Header{}
	if ct != "" {
		h.Set("Content-Type", ct)
	}
	return &http.Response{StatusCode: status, Header: h, Body: body, ProtoMajor: 1, ProtoMinor: 1, ContentLength: -1}
}

type verifSent struct {
	method, url, body string
	header            http.Header
	ctx               context.Context
}

// verifSend makes one call against a transport.
func (v *verifRun) verifSend(msgpack bool, hdr http.Header, setHdr bool, ctx context.Context, url, ep, method string, args, reply []interface{}, answer func(*http.Request) (*http.Response, error)) (sent []verifSent, err error) {
	c := NewClientWithHttpClient(&http.Client{Transport: verifTransport(func(r *http.Request) (*http.Response, error) {
		b := ""
		if r.Body != nil {
			x, _ := io.ReadAll(r.Body)
			b = string(x)
		}
		sent = append(sent, verifSent{r.Method, r.URL.String(), b, r.Header.Clone(), r.Context()})
		return answer(r)
	})})
	if !msgpack {
		c.SetClientEncoding(EncodingJson)
	}
	if setHdr {
		c.SetDefaultHeaders(hdr)
	}
	err = c.Call(ctx, url, ep, method, args, reply)
	return
}

func TestVerifC07_Call(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(1200); i++ {
		mp := v.rng.Intn(2) == 0
		announced := ""
		answerMP := v.rng.Intn(2) == 0
		if answerMP {
			announced = verifMsgpack
		} else if v.rng.Intn(2) == 0 {
			announced = verifJSON
		}
		a, n := v.str(), v.rng.Intn(1000)
		good := verifEnc(answerMP, []interface{}{a, n})
		status := 200
		body := good
		cause := errors.New("cause " + v.str())
		var args []interface{}
		if v.rng.Intn(2) == 0 {
			args = []interface{}{v.str(), 5}
		}
		var ctx = context.Background()
		url := "http://host.example"
		b := &verifBody{}
		kind := v.rng.Intn(9)
		switch kind {
		case 0, 1: // success
		case 2: // another status
			status = []int{201, 202, 204, 206, 300, 304, 400, 401, 403, 404, 405, 500, 502, 503, 199, 299}[v.rng.Intn(16)]
			if v.rng.Intn(2) == 0 {
				body = v.str() + strings.Repeat("b", v.rng.Intn(40000))
			}
		case 3: // undecodable body
			if v.rng.Intn(2) == 0 {
				body = good[:v.rng.Intn(len(good))]
			} else {
				body = verifEnc(answerMP, []interface{}{map[string]string{"x": "y"}, []string{"x"}})
			}
		case 4: // the request fails
		case 5: // arguments that cannot be encoded
			args = []interface{}{"x", verifBadValue{}}
		case 6: // the body breaks off
			b.fail = cause
			if v.rng.Intn(2) == 0 {
				status = 500
			}
			if v.rng.Intn(2) == 0 {
				body = good[:v.rng.Intn(len(good))]
			}
		case 7: // no request can be made
			if v.rng.Intn(2) == 0 {
				url = "http://a b"
			} else {
				url = ":/"
			}
		case 8: // canceled
			c, cancel := context.WithCancel(context.Background())
			cancel()
			ctx = c
		}
		b.r = strings.NewReader(body)
		s, k := "before", -7
		reply := []interface{}{&s, &k}
		var err error
		var sent []verifSent
		p := verifTry(func() {
			sent, err = v.verifSend(mp, nil, false, ctx, url, "/e", "M", args, reply, func(r *http.Request) (*http.Response, error) {
				if e := r.Context().Err(); e != nil {
					return nil, e
				}
				if kind == 4 {
					return nil, cause
				}
				return verifResponse(status, announced, b), nil
			})
		})
		if !v.ok(p == nil, "a call panics: %v", p) {
			continue
		}
		v.ok(len(sent) <= 1, "%d requests are sent for one call", len(sent))
		untouched := s == "before" && k == -7
		if kind <= 1 {
			v.ok(err == nil && s == a && k == n, "a good response (%q, %d) gives (%q, %d) and %v", a, n, s, k, err)
			continue
		}
		if !v.ok(err != nil, "the call succeeds though (case %d) status %d, body %.60q of %q, arguments %v, url %s", kind, status, body, announced, kinds(args), url) {
			continue
		}
		var ce *ClientError
		v.ok(errors.As(err, &ce) && errors.Unwrap(error(ce)) != nil, "case %d: the error %T %v is not a client error with a cause", kind, err, err)
		var he *HTTPError
		isHTTP := errors.As(err, &he)
		switch kind {
		case 2:
			v.ok(isHTTP && he.StatusCode == status && he.Body == body, "a status %d with body %.60q is reported as %T %.80v", status, body, err, err)
			v.ok(untouched, "a status %d changes the reply values", status)
		case 3:
			v.ok(!isHTTP, "an undecodable 200 response is an HTTP error %v", err)
		case 4:
			v.ok(errors.Is(err, cause) && untouched, "the transport's error is not reachable through %v", err)
		case 5:
			v.ok(len(sent) == 0 && untouched, "a request is sent though its arguments cannot be encoded")
		case 6:
			v.ok(status != 200 || errors.Is(err, cause), "the error of reading the body is not reachable through %v", err)
			v.ok(status == 200 || untouched, "a status %d changes the reply values", status)
		case 8:
			v.ok(errors.Is(err, context.Canceled) && untouched, "a canceled call gives %v", err)
		}
	}
	// errors of the service arrive as such
	for i := 0; i < v.rounds(200); i++ {
		var e error
		orig := errors.New(v.str())
		body := verifEnc(true, verifWire(true, []interface{}{orig}))
		_, err := v.verifSend(true, nil, false, context.Background(), "http://h", "/e", "M", nil, []interface{}{&e}, func(r *http.Request) (*http.Response, error) {
			return verifResponse(200, verifMsgpack, &verifBody{r: strings.NewReader(body)}), nil
		})
		v.ok(err == nil && e != nil && e.Error() == orig.Error(), "the service's error %v arrives as %v, client error %v", orig, e, err)
	}
	v.ok((*ClientError)(nil).Unwrap() == nil, "an absent client error has a cause")
	x := errors.New("x")
	v.ok(NewClientError(x).Unwrap() == x, "a client error loses its cause")
	h := NewHTTPError("body text", 418)
	v.ok(h.StatusCode == 418 && h.Body == "body text" && h.Error() == "[418] body text", "NewHTTPError gives %+v", h)
}

func (v *verifRun) header() http.Header {
	h := http.Header{}
	names := []string{"Authorization", "X-Trace", "Cookie", "Content-Type", "Accept", "X-Foomo-S2s", "x-lower", "User-Agent"}
	for n := v.rng.Intn(5); n > 0; n-- {
		k := names[v.rng.Intn(len(names))]
		for m := v.rng.Intn(3); m >= 0; m-- {
			if k == "x-lower" {
				h[k] = append(h[k], "v")
			} else {
				h.Add(k, "v"+strings.Repeat("x", v.rng.Intn(3)))
			}
		}
	}
	return h
}

func TestVerifC08_Request(t *testing.T) {
	v := newVerifRun(t)
	type key string
	for i := 0; i < v.rounds(800); i++ {
		mp := v.rng.Intn(2) == 0
		own := v.header()
		before := own.Clone()
		set := v.rng.Intn(4) > 0
		var hdr http.Header
		if set && v.rng.Intn(5) > 0 {
			hdr = own
		}
		url := []string{"http://host.example", "https://host:8080/base", "http://h/a%20b"}[v.rng.Intn(3)]
		ep := []string{"/service", "", "/a/b", "/x%2Fy", "/s"}[v.rng.Intn(5)]
		method := []string{"Hello", "M", "Äh", "Do_2"}[v.rng.Intn(4)]
		var args []interface{}
		for n := v.rng.Intn(4); n > 0; n-- {
			args = append(args, v.plainValue())
		}
		if args == nil && v.rng.Intn(2) == 0 {
			args = []interface{}{}
		}
		ctx := context.WithValue(context.Background(), key("k"), i)
		status := []int{200, 200, 500}[v.rng.Intn(3)]
		c := []verifSent{}
		transport := verifTransport(func(r *http.Request) (*http.Response, error) {
			b := ""
			if r.Body != nil {
				x, _ := io.ReadAll(r.Body)
				b = string(x)
			}
			c = append(c, verifSent{r.Method, r.URL.String(), b, r.Header.Clone(), r.Context()})
			r.Header.Set("Authorization", "changed by the transport")
			return verifResponse(status, "", &verifBody{r: strings.NewReader(verifEnc(false, []interface{}{}))}), nil
		})
		cl := NewClientWithHttpClient(&http.Client{Transport: transport})
		ct := verifMsgpack
		if !mp {
			cl.SetClientEncoding(EncodingJson)
			ct = verifJSON
		}
		if set {
			cl.SetDefaultHeaders(hdr)
		}
		for call := 1; call <= 2; call++ {
			err := cl.Call(ctx, url, ep, method, args, nil)
			v.ok((err == nil) == (status == 200), "a call answered %d gives %v", status, err)
			if !v.ok(len(c) == call, "%d requests are sent for %d calls", len(c), call) {
				break
			}
			s := c[call-1]
			v.ok(s.method == "POST", "the client sends a %s", s.method)
			wantURL, _ := http.NewRequest("POST", url+ep+"/"+method, nil)
			v.ok(s.url == wantURL.URL.String(), "the client calls %s instead of %s", s.url, wantURL.URL)
			v.ok(s.ctx.Value(key("k")) == i, "the request does not have the caller's context")
			want := ""
			if len(args) > 0 {
				want = verifEnc(mp, args)
			}
			v.ok(s.body == want, "the body is %.100q instead of %.100q", s.body, want)
			v.ok(reflect.DeepEqual(s.header["Content-Type"], []string{ct}) && reflect.DeepEqual(s.header["Accept"], []string{ct}), "the client announces %q and accepts %q, its codec is %q", s.header["Content-Type"], s.header["Accept"], ct)
			v.ok(reflect.DeepEqual(s.header["X-Foomo-S2s"], []string{"true"}), "the service-to-service header is %q", s.header["X-Foomo-S2s"])
			for k, x := range hdr {
				if k != "Content-Type" && k != "Accept" && k != "X-Foomo-S2s" {
					v.ok(reflect.DeepEqual(s.header[k], x), "the default header %s: %q is sent as %q", k, x, s.header[k])
				}
			}
			v.ok(reflect.DeepEqual(own, before), "a call changes the default headers from %v to %v", before, own)
		}
	}
}

func TestVerifC05_Client(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(500); i++ {
		mp := v.rng.Intn(2) == 0
		a, n := v.str(), v.rng.Intn(1000)
		announced := v.contentType()
		announced = strings.ReplaceAll(announced, "\n", "")
		written := v.rng.Intn(2) == 0
		var s string
		var k int
		var gotA string
		var gotN int
		var errLoad error
		sent, err := v.verifSend(mp, nil, false, context.Background(), "http://h", "/e", "M", []interface{}{a, n}, []interface{}{&s, &k}, func(r *http.Request) (*http.Response, error) {
			return verifResponse(200, announced, &verifBody{r: strings.NewReader(verifEnc(written, []interface{}{a, n}))}), nil
		})
		if !v.ok(len(sent) == 1, "%d requests are sent", len(sent)) {
			continue
		}
		if written == (announced == verifMsgpack) {
			v.ok(err == nil && s == a && k == n, "a reply (%q, %d) announced as %q arrives as (%q, %d): %v", a, n, announced, s, k, err)
		} else {
			v.ok(err != nil || s != a || k != n, "a reply announced as %q is read with the other codec", announced)
		}
		args := []interface{}{&gotA, &gotN}
		verifSilence(func() {
			errLoad = LoadArgs(&args, nil, verifRequest(sent[0].header.Get("Content-Type"), sent[0].body))
		})
		v.ok(errLoad == nil && gotA == a && gotN == n, "the server reads a client's arguments (%q, %d) as (%q, %d): %v", a, n, gotA, gotN, errLoad)
	}
}

func TestVerifC11_RoundTrip(t *testing.T) {
	v := newVerifRun(t)
	verifSilence(func() {
		for i := 0; i < v.rounds(500); i++ {
			n := v.rng.Intn(5)
			vals := make([]interface{}, n)
			targets := make([]interface{}, n)
			for k := range vals {
				switch v.rng.Intn(4) {
				case 0:
					vals[k], targets[k] = v.str(), new(string)
				case 1:
					vals[k], targets[k] = v.rng.Intn(50), new(int)
				case 2:
					var e error
					vals[k], targets[k] = errors.New(v.str()), &e
				case 3:
					var e error
					vals[k], targets[k] = nil, &e
				}
			}
			w := &verifWriter{h: http.Header{}}
			if err := Reply(append([]interface{}{}, vals...), nil, verifRequest(verifMsgpack, ""), w); err != nil {
				v.ok(false, "Reply fails: %v", err)
				continue
			}
			_, err := v.verifSend(true, nil, false, context.Background(), "http://h", "/e", "M", nil, targets, func(r *http.Request) (*http.Response, error) {
				return verifResponse(200, w.ct, &verifBody{r: strings.NewReader(strings.Join(w.writes, ""))}), nil
			})
			v.ok(err == nil, "reading the reply to %v fails: %v", kinds(vals), err)
			for k := range vals {
				switch x := targets[k].(type) {
				case *string:
					v.ok(*x == vals[k], "value %d of %d, %v, arrives as %v", k, n, vals[k], *x)
				case *int:
					v.ok(*x == vals[k], "value %d of %d, %v, arrives as %v", k, n, vals[k], *x)
				case *error:
					if vals[k] == nil {
						v.ok(*x == nil, "no error at %d of %d arrives as %v", k, n, *x)
					} else {
						v.ok(*x != nil && (*x).Error() == vals[k].(error).Error(), "error %d of %d, %v, arrives as %v", k, n, vals[k], *x)
					}
				}
			}
		}
	})
}
