package prometheus

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	p "github.com/prometheus/client_golang/prometheus"

	"github.com/foomo/gotsrpc/v2"
)

// sums: metric name|package|service|func|type -> count, sum
func sums() map[string][2]float64 {
	out := map[string][2]float64{}
	fams, _ := p.DefaultGatherer.Gather()
	for _, f := range fams {
		for _, m := range f.GetMetric() {
			s := m.GetSummary()
			if s == nil {
				continue
			}
			l := map[string]string{}
			for _, x := range m.GetLabel() {
				l[x.GetName()] = x.GetValue()
			}
			k := fmt.Sprintf("%s|%s|%s|%s|%s", f.GetName(), l["package"], l["service"], l["func"], l["type"])
			if len(l) == 4 && s.GetSampleCount() > 0 {
				out[k] = [2]float64{float64(s.GetSampleCount()), s.GetSampleSum()}
			}
		}
	}
	return out
}

func TestVerifC04_Prometheus(t *testing.T) {
	n := 0
	ok := func(c bool, format string, args ...interface{}) {
		n++
		if !c {
			fmt.Printf("VERIF-FAIL "+format+"\n", args...)
			t.Fail()
		}
	}
	defer func() { fmt.Printf("VERIF-EXEC %d\n", n) }()
	reg := p.NewRegistry()
	p.DefaultRegisterer, p.DefaultGatherer = reg, reg
	calls, clear := 0, false
	h := InstrumentService(func(w http.ResponseWriter, r *http.Request) {
		calls++
		s, has := gotsrpc.GetStatsForRequest(r)
		ok(has, "no statistics in an instrumented call")
		*s = gotsrpc.CallStats{Package: "P", Service: "S", Func: "F", Execution: 3, Marshalling: 5, Unmarshalling: 7, RequestSize: 11, ResponseSize: 13}
		if clear {
			gotsrpc.ClearStats(r)
		}
	})
	for i := 1; i <= 3; i++ {
		h(httptest.NewRecorder(), httptest.NewRequest(http.MethodPost, "/", nil))
		ok(calls == i, "the service runs %d times for %d requests", calls, i)
	}
	clear = true
	h(httptest.NewRecorder(), httptest.NewRequest(http.MethodPost, "/", nil))
	want := map[string]float64{"service_size_bytes|P|S|F|request": 11, "service_size_bytes|P|S|F|response": 13, "service_time_nanoseconds|P|S|F|unmarshalling": 7, "service_time_nanoseconds|P|S|F|execution": 3, "service_time_nanoseconds|P|S|F|marshalling": 5}
	got := sums()
	for k, x := range want {
		g := got["gotsrpc_"+k]
		ok(g == [2]float64{3, 3 * x}, "%s has count and sum %v after 3 calls with %v", k, g, x)
	}
	for k := range got {
		ok(len(k) > 8 && want[k[8:]] != 0, "unexpected figure %s", k)
	}
	g := InstrumentGoRPCService()
	g(&gotsrpc.CallStats{Package: "P2", Service: "S2", Func: "F2", Execution: 17, Marshalling: 1, RequestSize: 2})
	found := 0
	for k, x := range sums() {
		if k == "gorpc_service_time_seconds|P2|S2|F2|execution" {
			found++
			ok(x == [2]float64{1, 17}, "a GoRPC call of 17ns is recorded as %v", x)
		} else if want[k[8:]] == 0 {
			ok(false, "unexpected figure %s", k)
		}
	}
	ok(found == 1, "a GoRPC call is not recorded")
}
