//go:build verif

package gotsrpc

import (
	"net/http"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// statsOf is the statistics object a request carries, nil if it has none.
//
//@ spec
func statsOf(r *http.Request) any { return r.Context().Value(contextStatsKey) }

//@ contract RequestWithStatsContext
func ctWithStats(r *http.Request, q *http.Request) {
	gs.Property("C04")
	gs.Requires(r != nil)
	gs.Ensures("the request carries a statistics object", q != nil && gs.IsType[*CallStats](statsOf(q)) && statsOf(q).(*CallStats) != nil)
	gs.Ensures("a fresh and empty one", gs.Fresh(statsOf(q).(*CallStats)) && *statsOf(q).(*CallStats) == CallStats{})
	gs.Ensures("it is the same request otherwise", q.Method == r.Method && q.URL == r.URL && gs.Same(q.Header, r.Header) && q.Body == r.Body && q.ContentLength == r.ContentLength)
	gs.Ensures("the given request keeps its context", r.Context() == gs.Old(r.Context()))
	gs.Ensures("a new request object", gs.Fresh(q))
	gs.NoPanic()
}

//@ contract GetStatsForRequest
func ctGetStats(r *http.Request, s *CallStats, ok bool) {
	gs.Property("C04")
	gs.Requires(r != nil)
	gs.Ensures("found exactly when the request carries one", ok == (gs.IsType[*CallStats](statsOf(r)) && statsOf(r).(*CallStats) != nil))
	gs.Ensures("it is the request's own", gs.Implies(ok, any(s) == statsOf(r)))
	gs.Ensures("never nil, and a throw-away one if there is none", s != nil && gs.Implies(!ok, gs.Fresh(s)))
	gs.NoPanic()
}

//@ contract ClearStats
func ctClearStats(r *http.Request) {
	gs.Property("C04")
	gs.Requires(r != nil)
	gs.Ensures("the request carries no statistics any more", !gs.IsType[*CallStats](statsOf(r)))
	gs.Ensures("it is the same request otherwise", r.Method == gs.Old(r.Method) && r.URL == gs.Old(r.URL) && gs.Same(r.Header, gs.Old(r.Header)) && r.Body == gs.Old(r.Body) && r.ContentLength == gs.Old(r.ContentLength))
	gs.Assigns(r)
	gs.NoPanic()
}

// one request served by an instrumented service
func lemmaInstrumented(middleware http.HandlerFunc, handleStats GoRPCCallStatsHandlerFun, w http.ResponseWriter, r *http.Request) {
	InstrumentedService(middleware, handleStats)(w, r)
}

//@ contract lemmaInstrumented
func ctInstrumentedCall(middleware http.HandlerFunc, handleStats GoRPCCallStatsHandlerFun, w http.ResponseWriter, r *http.Request) {
	gs.Property("C04")
	gs.Requires(r != nil, middleware != nil, handleStats != nil)
	gs.Ensures("the wrapped handler runs exactly once, first", gs.Count("dyn") >= 1 && gs.Same(gs.Arg[http.HandlerFunc]("dyn", 0, 0), middleware))
	gs.Ensures("with this request and writer", gs.Arg[http.ResponseWriter]("dyn", 0, 1) == w && gs.Arg[*http.Request]("dyn", 0, 2) == r)
	gs.Ensures("with a fresh, empty statistics object", gs.At("dyn", 0, gs.IsType[*CallStats](statsOf(r)) && gs.Fresh(statsOf(r).(*CallStats)) && *statsOf(r).(*CallStats) == CallStats{}))
	gs.Ensures("that runs within the caller's request", gs.At("dyn", 0, r.Method) == gs.Old(r.Method) && gs.At("dyn", 0, r.URL) == gs.Old(r.URL) && gs.At("dyn", 0, r.Body) == gs.Old(r.Body) && gs.Same(gs.At("dyn", 0, r.Header), gs.Old(r.Header)))
	gs.Ensures("the statistics handler runs exactly when the handler left them there", gs.Count("dyn") == gs.Ite(gs.After("dyn", 0, gs.IsType[*CallStats](statsOf(r)) && statsOf(r).(*CallStats) != nil), 2, 1))
	gs.Ensures("with that very object", gs.Implies(gs.Count("dyn") == 2, gs.Same(gs.Arg[GoRPCCallStatsHandlerFun]("dyn", 1, 0), handleStats) && any(gs.Arg[*CallStats]("dyn", 1, 1)) == gs.After("dyn", 0, statsOf(r))))
	gs.AnyFrame()
}

// VerifStatsOf is the statistics object a request carries, for contracts of
// other packages.
func VerifStatsOf(r *http.Request) any { return r.Context().Value(contextStatsKey) }
