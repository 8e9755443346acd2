//go:build verif

package gotsrpc

import (
	"bytes"
	"context"
	"net/http"
	"strconv"

	"github.com/pkg/errors"
	"github.com/ugorji/go/codec"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

const specS2S = "X-Foomo-S2s"

//@ contract NewClientError
func ctNewClientError(err error, e *ClientError) {
	gs.Property("C07")
	gs.Ensures("a client error holding the cause", e != nil && gs.Fresh(e) && e.error == err)
	gs.NoPanic()
	gs.InlineAtCalls()
}

//@ contract (*ClientError).Unwrap
func ctClientErrorUnwrap(e *ClientError, err error) {
	gs.Property("C07")
	gs.Ensures("the cause stays reachable", gs.Ite(e == nil, err == nil, err == e.error))
	gs.NoPanic()
	gs.InlineAtCalls()
}

//@ contract NewHTTPError
func ctNewHTTPError(msg string, code int, e *HTTPError) {
	gs.Property("C07")
	gs.Ensures("exposes the status and the full body", e != nil && e.StatusCode == code && e.Body == msg)
	gs.Ensures("a new error", gs.Fresh(e) && e.error != nil && e.error.Error() == msg)
	gs.NoPanic()
}

//@ contract (*HTTPError).Error
func ctHTTPErrorText(e *HTTPError, s string) {
	gs.Property("C07")
	gs.Requires(e != nil, e.error != nil)
	gs.Ensures("names status and message", s == "["+strconv.Itoa(e.StatusCode)+"] "+e.error.Error())
	gs.InlineAtCalls()
}

//@ contract newRequest
func ctNewRequest(ctx context.Context, url string, contentType string, buffer *bytes.Buffer, headers http.Header, r *http.Request, err error) {
	gs.Property("C08")
	gs.Requires(buffer != nil)
	gs.Ensures("a request or an error", (r == nil) == (err != nil))
	gs.Ensures("a POST to the URL, with the caller's context", gs.Implies(err == nil, r.Method == "POST" && gs.RequestURL(r) == url && r.Context() == ctx))
	gs.Ensures("announcing its codec as sent and accepted", gs.Implies(err == nil, r.Header.Get("Content-Type") == contentType && r.Header.Get("Accept") == contentType && r.Header.Get(specS2S) == "true"), "C08", "C05")
	gs.Ensures("all other given headers are sent", gs.Implies(err == nil, gs.Forall(func(k string) bool {
		return gs.Implies(k != "Content-Type" && k != "Accept" && k != specS2S && gs.Old(gs.Has(headers, k)), gs.Has(r.Header, k) && gs.Same(r.Header[k], gs.Old(headers[k])))
	})))
	gs.Ensures("and no others", gs.Implies(err == nil, gs.Forall(func(k string) bool {
		return gs.Implies(k != "Content-Type" && k != "Accept" && k != specS2S && gs.Has(r.Header, k), gs.Old(gs.Has(headers, k)))
	})))
	gs.Ensures("the body is the buffer", gs.Implies(err == nil, gs.RequestBody(r) == any(buffer)))
	gs.InlineAtCalls()
	gs.AnyFrame()
}

// causedBy: err is a client error whose chain reaches the cause.
//
//@ spec
func causedBy(err error, cause error) bool {
	return gs.IsType[*ClientError](err) && err.(*ClientError) != nil && reach1(errors.Unwrap(err), cause)
}

//@ spec
func reach1(err, cause error) bool { return err != nil && (err == cause || reach2(errors.Unwrap(err), cause)) }

//@ spec
func reach2(err, cause error) bool { return err != nil && (err == cause || reach3(errors.Unwrap(err), cause)) }

//@ spec
func reach3(err, cause error) bool { return err != nil && (err == cause || reach4(errors.Unwrap(err), cause)) }

//@ spec
func reach4(err, cause error) bool { return err != nil && (err == cause || reach5(errors.Unwrap(err), cause)) }

//@ spec
func reach5(err, cause error) bool { return err != nil && err == cause }

//@ contract (*bufferedClient).Call
func ctCall(c *bufferedClient, ctx context.Context, url string, endpoint string, method string, args []interface{}, reply []interface{}, err error) {
	gs.Property("C07", "C08", "C05", "C11")
	gs.Requires(c != nil, c.client != nil, c.handle != nil)
	do := gs.Count("http.Client.Do") == 1
	req := gs.Arg[*http.Request]("http.Client.Do", 0, 1)
	resp := gs.Ret[*http.Response]("http.Client.Do", 0, 0)
	status := gs.After("http.Client.Do", 0, resp.StatusCode)
	announced := gs.After("http.Client.Do", 0, resp.Header.Get("Content-Type"))
	// the body, and whether it could be read
	body := gs.After("http.Client.Do", 0, gs.UF[string]("contentOf", resp.Body))
	read := gs.Count("io.Drain") == 1 && gs.Ret[error]("io.Drain", 0, 1) == nil
	encoded := gs.Count("codec.Encode") == 1
	decoded := gs.Count("codec.Decode") == 1

	gs.Requires(gs.Forall(func(k int) bool { return gs.Implies(0 <= k && k < len(reply), reply[k] != nil) }))
	gs.Requires(gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(reply) && gs.IsType[*error](reply[k]), reply[k].(*error) != nil)
	}))
	gs.Requires(gs.Forall(func(i, j int) bool {
		return gs.Implies(0 <= i && i < j && j < len(reply), reply[i] != reply[j])
	}))

	// C07
	gs.Ensures("success means a sent request and a 200", gs.Implies(err == nil, do && gs.Ret[error]("http.Client.Do", 0, 1) == nil && status == 200), "C07")
	gs.Ensures("success means the arguments were encoded", gs.Implies(err == nil && len(args) > 0, encoded && gs.Ret[error]("codec.Encode", 0, 0) == nil), "C07")
	gs.Ensures("success means the body was decoded", gs.Implies(err == nil, decoded && gs.Ret[error]("codec.Decode", 0, 0) == nil), "C07")
	gs.Ensures("every failure is a client error with a cause", gs.Implies(err != nil, gs.IsType[*ClientError](err) && err.(*ClientError) != nil && errors.Unwrap(err) != nil), "C07")
	gs.Ensures("a failed encoding is the cause", gs.Implies(encoded && gs.Ret[error]("codec.Encode", 0, 0) != nil, causedBy(err, gs.Ret[error]("codec.Encode", 0, 0)) && gs.Count("http.Client.Do") == 0), "C07")
	gs.Ensures("a failed request is the cause", gs.Implies(do && gs.Ret[error]("http.Client.Do", 0, 1) != nil, causedBy(err, gs.Ret[error]("http.Client.Do", 0, 1))), "C07")
	gs.Ensures("a failed decoding is the cause", gs.Implies(decoded && gs.Ret[error]("codec.Decode", 0, 0) != nil, causedBy(err, gs.Ret[error]("codec.Decode", 0, 0))), "C07")
	gs.Ensures("another status is exposed with the full body", gs.Implies(do && gs.Ret[error]("http.Client.Do", 0, 1) == nil && status != 200 && read, err != nil && gs.IsType[*HTTPError](errors.Unwrap(err)) && errors.Unwrap(err).(*HTTPError).StatusCode == status && errors.Unwrap(err).(*HTTPError).Body == body), "C07")
	gs.Ensures("and the reply is left alone", gs.Implies(gs.Count("codec.Decode") > 0, do && gs.Ret[error]("http.Client.Do", 0, 1) == nil && status == 200), "C07")
	gs.Ensures("the whole body is decoded, once", gs.Count("codec.Decode") <= 1 && gs.Implies(decoded, gs.Arg[string]("codec.Decode", 0, 3) == body), "C07")

	// C08
	gs.Ensures("at most one request is sent", gs.Count("http.Client.Do") <= 1 && gs.Implies(do, gs.Arg[*http.Client]("http.Client.Do", 0, 0) == gs.Old(c.client)), "C08")
	gs.Ensures("a POST to the method's address, with the caller's context", gs.Implies(do, gs.At("http.Client.Do", 0, req.Method == "POST" && gs.RequestURL(req) == url+endpoint+"/"+method && req.Context() == ctx)), "C08")
	gs.Ensures("carrying the encoded arguments", gs.Implies(do, gs.At("http.Client.Do", 0, gs.BufferContent(gs.RequestBody(req).(*bytes.Buffer))) == gs.Ite(len(args) > 0, gs.Ret[string]("codec.Encode", 0, 1), "")), "C08")
	gs.Ensures("all arguments as one list", gs.Count("codec.Encode") <= 1 && gs.Implies(encoded, gs.Same(gs.Arg[any]("codec.Encode", 0, 0).([]interface{}), args)) && gs.Implies(do && len(args) > 0, encoded), "C08")
	gs.Ensures("the caller's default headers are sent", gs.Implies(do, gs.Forall(func(k string) bool {
		return gs.Implies(k != "Content-Type" && k != "Accept" && k != specS2S && gs.Old(gs.Has(c.headers, k)), gs.At("http.Client.Do", 0, gs.Has(req.Header, k) && gs.Same(req.Header[k], gs.Old(c.headers[k]))))
	})), "C08")
	gs.Ensures("service-to-service calls are marked", gs.Implies(do, gs.At("http.Client.Do", 0, req.Header.Get(specS2S) == "true")), "C08")
	gs.Ensures("the default headers are never modified", gs.Same(c.headers, gs.Old(c.headers)) && gs.Implies(do, gs.At("http.Client.Do", 0, gs.Forall(func(k string) bool {
		return gs.Has(c.headers, k) == gs.Old(gs.Has(c.headers, k)) && gs.Same(c.headers[k], gs.Old(c.headers[k]))
	})) && gs.Implies(gs.Old(c.headers) != nil, !gs.Same(gs.At("http.Client.Do", 0, req.Header), gs.Old(c.headers)))), "C08")

	// C05
	gs.Ensures("the client announces the codec it encodes with", gs.Implies(do, gs.At("http.Client.Do", 0, req.Header.Get("Content-Type") == gs.Old(c.handle.contentType) && req.Header.Get("Accept") == gs.Old(c.handle.contentType)) && gs.Implies(encoded, gs.Arg[codec.Handle]("codec.Encode", 0, 1) == gs.Old(c.handle.handle))), "C05", "C08")
	gs.Ensures("the reply is decoded with the codec the response announces", gs.Implies(decoded, gs.Arg[codec.Handle]("codec.Decode", 0, 1) == gs.Ite(announced == specMsgpack, msgpackClientHandle.handle, jsonClientHandle.handle)), "C05", "C07")

	gs.Stable("github.com/foomo/gotsrpc/v2.bufferedClient")
	// C11
	gs.Ensures("one value per target is decoded", gs.Implies(decoded, gs.At("codec.Decode", 0, len(gs.Arg[any]("codec.Decode", 0, 0).([]interface{}))) == len(reply)), "C11")
	gs.Ensures("into the caller's targets, except for transported errors", gs.Implies(decoded, gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(reply) && !(announced == specMsgpack && errorTarget(gs.Old(reply[k]))), gs.At("codec.Decode", 0, gs.Arg[any]("codec.Decode", 0, 0).([]interface{})[k]) == gs.Old(reply[k]))
	})), "C11")
	gs.AnyFrame()
}
