//go:build verif

package prometheus

import (
	"net/http"

	p "github.com/prometheus/client_golang/prometheus"

	"github.com/foomo/gotsrpc/v2"
	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// the statistics handler InstrumentService hands to InstrumentedService, run
// once: the wrapped handler is empty.
func lemmaService(s http.HandlerFunc, w http.ResponseWriter, r *http.Request) {
	InstrumentService(s)(w, r)
}

// a GoRPC call reported once
func lemmaGoRPC(stats *gotsrpc.CallStats) {
	InstrumentGoRPCService()(stats)
}

// figure: the k-th observation is the value v of kind typ for the call.
//
//@ spec
func figure(k int, name string, st *gotsrpc.CallStats, typ string, v float64) int {
	lv := gs.Arg[[]string]("SummaryVec.WithLabelValues", k, 1)
	return gs.Ite(observedBy(0, k, v) || observedBy(1, k, v) || observedBy(2, k, v) || observedBy(3, k, v) || observedBy(4, k, v), gs.Ite(
		gs.At("SummaryVec.WithLabelValues", k, vecNamed(gs.Arg[*p.SummaryVec]("SummaryVec.WithLabelValues", k, 0), name) && len(lv) == 4 && lv[0] == st.Package && lv[1] == st.Service && lv[2] == st.Func && lv[3] == typ), 1, 0), 0)
}

// vecNamed: v is the metric created under that name.
//
//@ spec
func vecNamed(v *p.SummaryVec, name string) bool {
	return created(0, v, name) || created(1, v, name)
}

//@ spec
func created(k int, v *p.SummaryVec, name string) bool {
	return k < gs.Count("NewSummaryVec") && gs.Ret[*p.SummaryVec]("NewSummaryVec", k, 0) == v && gs.Arg[p.SummaryOpts]("NewSummaryVec", k, 0).Name == name
}

//@ spec
func observedBy(j, k int, v float64) bool {
	return j < gs.Count("Observer.Observe") && gs.Arg[p.Observer]("Observer.Observe", j, 0) == gs.Ret[p.Observer]("SummaryVec.WithLabelValues", k, 0) && gs.Arg[float64]("Observer.Observe", j, 1) == v
}

//@ spec
func reports(name string, st *gotsrpc.CallStats, typ string, v float64) bool {
	return figure(0, name, st, typ, v)+figure(1, name, st, typ, v)+figure(2, name, st, typ, v)+figure(3, name, st, typ, v)+figure(4, name, st, typ, v) == 1
}

//@ contract lemmaService
func ctService(s http.HandlerFunc, w http.ResponseWriter, r *http.Request) {
	gs.Property("C04")
	gs.Requires(s != nil, r != nil)
	st := gs.After("dyn", 0, gotsrpc.VerifStatsOf(r).(*gotsrpc.CallStats))
	gs.Ensures("reported exactly when the handler left the statistics there", (gs.Count("Observer.Observe") > 0) == gs.After("dyn", 0, gs.IsType[*gotsrpc.CallStats](gotsrpc.VerifStatsOf(r)) && gotsrpc.VerifStatsOf(r).(*gotsrpc.CallStats) != nil))
	gs.Ensures("every figure once", gs.Implies(gs.Count("Observer.Observe") > 0, gs.Count("Observer.Observe") == 5 && gs.Count("SummaryVec.WithLabelValues") == 5))
	gs.Ensures("sizes and times under the call's labels", gs.Implies(gs.Count("Observer.Observe") > 0,
		reports("size_bytes", st, "request", float64(st.RequestSize)) && reports("size_bytes", st, "response", float64(st.ResponseSize)) &&
			reports("time_nanoseconds", st, "unmarshalling", float64(st.Unmarshalling)) && reports("time_nanoseconds", st, "execution", float64(st.Execution)) && reports("time_nanoseconds", st, "marshalling", float64(st.Marshalling))))
	gs.AnyFrame()
}

//@ contract lemmaGoRPC
func ctGoRPC(stats *gotsrpc.CallStats) {
	gs.Property("C04")
	gs.Requires(stats != nil)
	gs.Ensures("the execution time once, under the call's labels", gs.Count("Observer.Observe") == 1 && gs.Count("SummaryVec.WithLabelValues") == 1 && figure(0, "time_seconds", stats, "execution", float64(stats.Execution)) == 1)
	gs.AnyFrame()
}
