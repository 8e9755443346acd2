package main

import (
	"fmt"
	"strings"
)

// harness: the glue between a service of the corpus and the concrete harness
// (replay_corpus/common_test.go).
func (s *cService) harness() string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	N := s.name
	impl := "&verifImpl" + N + "{rec}"
	if s.iface {
		p("type verifImpl%s struct{ rec *verifRec }\n", N)
		for _, m := range s.methods {
			ps, as := []string{}, []string{fmt.Sprintf("%q", m.name)}
			if m.http {
				ps = append(ps, "w http.ResponseWriter", "r *http.Request")
				as = append(as, "w", "r")
			} else {
				as = append(as, "nil", "nil")
			}
			for i, a := range m.args {
				ps = append(ps, fmt.Sprintf("a%d %s", i, a.typ))
				as = append(as, fmt.Sprintf("a%d", i))
			}
			var rs, vs []string
			for i, r := range m.rets {
				rs = append(rs, r.typ)
				vs = append(vs, fmt.Sprintf("verifAs[%s](r_, %d)", r.typ, i))
			}
			p("func (s *verifImpl%s) %s(%s) (%s) {\n\tr_ := s.rec.call(%s)\n\t_ = r_", N, m.name, strings.Join(ps, ", "), strings.Join(rs, ", "), strings.Join(as, ", "))
			if len(vs) > 0 {
				p("\treturn %s", strings.Join(vs, ", "))
			}
			p("}\n")
		}
	} else {
		impl = "&" + N + `{Rec: func(method string, args ...interface{}) []interface{} {
			if len(args) > 1 {
				if w, ok := args[0].(http.ResponseWriter); ok {
					r, _ := args[1].(*http.Request)
					return rec.call(method, w, r, args[2:]...)
				}
				if _, ok := args[1].(*http.Request); ok {
					return rec.call(method, nil, nil, args[2:]...)
				}
			}
			return rec.call(method, nil, nil, args...)
		}}`
	}
	types := func(as []cArg) string {
		var ts []string
		for _, a := range as {
			ts = append(ts, "verifType["+a.typ+"]()")
		}
		return "[]reflect.Type{" + strings.Join(ts, ", ") + "}"
	}
	names := func(as []cArg, prefix string) string {
		var ts []string
		for i, a := range as {
			n := a.name
			if n == fmt.Sprintf("%s%d", prefix, i) {
				n = ""
			}
			ts = append(ts, fmt.Sprintf("%q", n))
		}
		return "[]string{" + strings.Join(ts, ", ") + "}"
	}
	p("func verif%sService() *verifService {\n\timpl := func(rec *verifRec) %s {\n\t\treturn %s\n\t}\n\ts := &verifService{name: %q, pkg: %q, endpoint: %q, ts: %q}", N, s.typ(), impl, N, modPath+"/"+corpusRoot+"/"+s.pkg, s.endpoint, s.pkg+"-client.ts")
	for _, m := range s.methods {
		p("\ts.methods = append(s.methods, verifMethod{name: %q, http: %v, args: %s, rets: %s, argNames: %s, retNames: %s})", m.name, m.http, types(m.args), types(m.rets), names(m.args, "p"), names(m.rets, "r"))
	}
	p("\ts.proxy = func(rec *verifRec, endpoint string) http.Handler { return New%sGoTSRPCProxy(impl(rec), endpoint) }", N)
	p("\ts.defaultProxy = func(rec *verifRec) http.Handler { return NewDefault%sGoTSRPCProxy(impl(rec)) }", N)
	p("\ts.client = func(url, endpoint string, c gotsrpc.Client) interface{} { return &HTTP%sGoTSRPCClient{URL: url, EndPoint: endpoint, Client: c} }", N)
	p("\ts.defaultClient = func(url string) interface{} { return NewDefault%sGoTSRPCClient(url) }", N)
	if s.gorpc {
		p("\ts.gorpc = func(addr string, rec *verifRec) verifGoRPC { return New%sGoRPCProxy(addr, impl(rec), nil) }", N)
		p("\ts.gorpcClient = func(addr string) (interface{}, *gorpc.Client) { c := New%sGoRPCClient(addr, nil); return c, c.Client }", N)
		p("\ts.handler = func(rec *verifRec, stats gotsrpc.GoRPCCallStatsHandlerFun) func(string, interface{}) interface{} {\n\t\tp := New%sGoRPCProxy(\"\", impl(rec), nil)\n\t\tp.SetCallStatsHandler(stats)\n\t\treturn p.handler\n\t}", N)
	}
	p("\treturn s\n}\n")
	test := func(id, name, fn string) {
		p("func TestVerif%s_%s%s(t *testing.T) { %s(t, verif%sService()) }", id, name, N, fn, N)
	}
	test("C01", "Dispatch", "verifDispatch")
	test("C02", "Replies", "verifReplies")
	test("C03", "Monitored", "verifMonitored")
	test("C04", "Unknown", "verifUnknown")
	for _, m := range s.methods {
		if m.http {
			test("C06", "Sessions", "verifSessions")
			break
		}
	}
	if s.gorpc {
		test("C14", "GoRPC", "verifGoRPCCalls")
	}
	test("C15", "GoClient", "verifClients")
	test("C15", "TypeScript", "verifTS")
	body := b.String()
	var h strings.Builder
	fmt.Fprintf(&h, "package %s\n\nimport (\n\t\"net/http\"\n\t\"reflect\"\n\t\"testing\"\n", s.pkgName)
	h.WriteString(s.usedImports(body))
	fmt.Fprintf(&h, "\n\t\"github.com/valyala/gorpc\"\n\t\"%s\"\n)\n\nvar _ = gorpc.NewTCPClient\n\n", modPath)
	return h.String() + body
}
