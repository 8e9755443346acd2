//go:build verif

package gotsrpc

import (
	"net/http"
	"reflect"
	"strconv"
	"strings"

	"github.com/ugorji/go/codec"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

//@ contract GetCalledFunc
func ctCalledFunc(r *http.Request, endPoint string, name string) {
	gs.Property("C01")
	gs.Requires(r != nil, r.URL != nil)
	gs.Ensures("the name follows the endpoint and a slash", name == strings.TrimPrefix(r.URL.Path, endPoint+"/"))
	gs.NoPanic()
}

//@ contract ErrorFuncNotFound
func ctNotFound(w http.ResponseWriter) {
	gs.Property("C01")
	gs.Requires(w != nil, gs.Status(w) == 0)
	gs.Ensures("answers 404", gs.Status(w) == 404)
	gs.AssignsWriter(w)
	gs.NoPanic()
}

//@ contract ErrorCouldNotReply
func ctCouldNotReply(w http.ResponseWriter) {
	gs.Property("C02")
	gs.Requires(w != nil)
	gs.Ensures("answers 500, unless a status was sent already", gs.Implies(gs.Old(gs.Status(w)) == 0, gs.Status(w) == 500))
	gs.AssignsWriter(w)
	gs.NoPanic()
}

//@ contract ErrorCouldNotLoadArgs
func ctCouldNotLoadArgs(w http.ResponseWriter) {
	gs.Property("C01")
	gs.Requires(w != nil, gs.Status(w) == 0)
	gs.Ensures("answers 400", gs.Status(w) == 400)
	gs.AssignsWriter(w)
	gs.NoPanic()
}

//@ contract ErrorMethodNotAllowed
func ctMethodNotAllowed(w http.ResponseWriter) {
	gs.Property("C01")
	gs.Requires(w != nil, gs.Status(w) == 0)
	gs.Ensures("answers 405", gs.Status(w) == 405)
	gs.AssignsWriter(w)
	gs.NoPanic()
}

//@ contract LoadArgs
func ctLoadArgs(args interface{}, callStats *CallStats, r *http.Request, err error) {
	gs.Property("C05", "C03", "C01")
	gs.Requires(r != nil, args != nil)
	gs.Ensures("the body is decoded exactly once, into the arguments", gs.Count("codec.Decode") == 1 && gs.Arg[any]("codec.Decode", 0, 0) == args && gs.Arg[any]("codec.Decode", 0, 2) == any(gs.Old(r.Body)))
	gs.Ensures("with the codec the content type announces", gs.Arg[codec.Handle]("codec.Decode", 0, 1) == gs.At("codec.Decode", 0, getHandlerForContentType(r.Header.Get("Content-Type")).handle), "C05")
	gs.Ensures("fails exactly when decoding fails", (err == nil) == (gs.Ret[error]("codec.Decode", 0, 0) == nil), "C01")
	gs.Ensures("the request's size is recorded", gs.Implies(err == nil && callStats != nil, callStats.RequestSize == int(r.ContentLength)), "C03")
	gs.Ensures("what the proxy recorded stays", gs.Implies(callStats != nil, callStats.Func == gs.Old(callStats.Func) && callStats.Package == gs.Old(callStats.Package) && callStats.Service == gs.Old(callStats.Service)), "C03")
	gs.Assigns(callStats)
	gs.AssignsDecoded(args)
	gs.NoCapture()
}

// present: v is a non-nil error.
//
//@ spec
func presentError(v any) bool {
	return gs.IsType[error](v) && !reflect.ValueOf(v).IsZero()
}

//@ contract Reply
func ctReply(response []interface{}, stats *CallStats, r *http.Request, w http.ResponseWriter, err error) {
	gs.Property("C02", "C03", "C05")
	gs.Requires(r != nil, w != nil)
	gs.Ensures("the values are encoded at most once, as one list", gs.Count("codec.Encode") <= 1 && gs.Implies(gs.Count("codec.Encode") == 1, gs.IsType[[]interface{}](gs.Arg[any]("codec.Encode", 0, 0))), "C02")
	gs.Ensures("every value is encoded, in order", gs.Implies(err == nil, gs.Count("codec.Encode") == 1 && gs.At("codec.Encode", 0, len(gs.Arg[any]("codec.Encode", 0, 0).([]interface{}))) == len(response) && gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(response),
			gs.Ite(isErrorValue(gs.Old(response[k])) && r.Header.Get("Content-Type") == specMsgpack,
				gs.At("codec.Encode", 0, gs.IsType[*Error](gs.Arg[any]("codec.Encode", 0, 0).([]interface{})[k])),
				gs.At("codec.Encode", 0, gs.Arg[any]("codec.Encode", 0, 0).([]interface{})[k]) == gs.Old(response[k])))
	})), "C02")
	gs.Ensures("with the codec of the request", gs.Implies(gs.Count("codec.Encode") == 1, gs.Arg[codec.Handle]("codec.Encode", 0, 1) == gs.Old(getHandlerForContentType(r.Header.Get("Content-Type")).handle)), "C05", "C02")
	gs.Ensures("the body is exactly the encoding, in one piece", gs.Implies(err == nil, gs.Count("Writer.Write") == 1 && gs.Arg[any]("Writer.Write", 0, 0) == any(w) && gs.Arg[string]("Writer.Write", 0, 1) == gs.Ret[string]("codec.Encode", 0, 1)), "C02")
	gs.Ensures("announced before it is sent", gs.Implies(gs.Count("Writer.Write") == 1, gs.At("Writer.Write", 0, w.Header().Get("Content-Type")) == gs.Old(getHandlerForContentType(r.Header.Get("Content-Type")).contentType) && gs.At("Writer.Write", 0, w.Header().Get("Content-Length")) == strconv.Itoa(len(gs.Ret[string]("codec.Encode", 0, 1)))), "C02", "C05")
	gs.Ensures("nothing is sent when the values cannot be encoded", gs.Implies(gs.Count("codec.Encode") == 0 || gs.Ret[error]("codec.Encode", 0, 0) != nil, err != nil && gs.Count("Writer.Write") == 0), "C02")
	gs.Ensures("the status is the caller's", gs.Status(w) == gs.Old(gs.Status(w)), "C02")
	gs.Ensures("a failed write is reported", gs.Implies(gs.Count("Writer.Write") == 1 && gs.Ret[error]("Writer.Write", 0, 1) != nil, err != nil), "C02")
	gs.Ensures("encoding and writing are the only reasons to fail", gs.Implies(gs.Count("codec.Encode") == 1 && gs.Ret[error]("codec.Encode", 0, 0) == nil && gs.Count("Writer.Write") == 1 && gs.Ret[error]("Writer.Write", 0, 1) == nil, err == nil), "C02")
	gs.Ensures("the values the service returned are left alone", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(response), response[k] == gs.Old(response[k]))
	}), "C03")
	gs.Ensures("the response's size is recorded", gs.Implies(err == nil && stats != nil, stats.ResponseSize == len(gs.Ret[string]("codec.Encode", 0, 1))), "C03")
	gs.Ensures("the error is recorded exactly when the last value is one", gs.Implies(err == nil && stats != nil,
		gs.Ite(len(response) > 0 && presentError(response[len(response)-1]),
			stats.ErrorType == gs.TypeString(response[len(response)-1]) && stats.ErrorMessage == response[len(response)-1].(error).Error(),
			stats.ErrorType == gs.Old(stats.ErrorType) && stats.ErrorMessage == gs.Old(stats.ErrorMessage) && stats.ErrorCode == gs.Old(stats.ErrorCode))), "C03")
	gs.Ensures("with its own code, else 1", gs.Implies(err == nil && stats != nil && len(response) > 0 && presentError(response[len(response)-1]),
		stats.ErrorCode == gs.Ite(gs.IsType[interface{ ErrorCode() int }](response[len(response)-1]), response[len(response)-1].(interface{ ErrorCode() int }).ErrorCode(), 1)), "C03")
	gs.Ensures("what the proxy recorded stays", gs.Implies(stats != nil, stats.Func == gs.Old(stats.Func) && stats.Package == gs.Old(stats.Package) && stats.Service == gs.Old(stats.Service) && stats.RequestSize == gs.Old(stats.RequestSize) && stats.Execution == gs.Old(stats.Execution)), "C03")
	gs.Assigns(stats)
	gs.AssignsWriter(w)
	gs.NoCapture()
}
