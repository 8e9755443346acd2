//go:build verif

package gotsrpc

import (
	"net/http"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

//@ contract (*ResponseWriter).WriteHeader
func ctWriteHeader(r *ResponseWriter, status int) {
	gs.Property("C06")
	gs.Requires(r != nil, r.ResponseWriter != nil)
	gs.Ensures("the status is passed to the real writer, once", gs.Count("http.ResponseWriter.WriteHeader") == 1 && gs.Same(gs.Arg[http.ResponseWriter]("http.ResponseWriter.WriteHeader", 0, 0), gs.Old(r.ResponseWriter)) && gs.Arg[int]("http.ResponseWriter.WriteHeader", 0, 1) == status)
	gs.Ensures("and reported from then on", r.Status() == status)
	gs.Ensures("the real writer stays", r.ResponseWriter == gs.Old(r.ResponseWriter))
	gs.AnyFrame()
	gs.InlineAtCalls()
}

// a writer as the proxies make it
func lemmaWriter(w http.ResponseWriter) int {
	rw := ResponseWriter{ResponseWriter: w}
	return rw.Status()
}

//@ contract lemmaWriter
func ctWriter(w http.ResponseWriter, status int) {
	gs.Property("C06")
	gs.Ensures("200 until a status is set", status == 200)
	gs.NoPanic()
}

// body and headers of a proxy's writer
func lemmaWriterPasses(w http.ResponseWriter, b []byte) (http.Header, int, error) {
	rw := &ResponseWriter{ResponseWriter: w}
	h := rw.Header()
	n, err := rw.Write(b)
	return h, n, err
}

//@ contract lemmaWriterPasses
func ctWriterPasses(w http.ResponseWriter, b []byte, h http.Header, n int, err error) {
	gs.Property("C06")
	gs.Requires(w != nil)
	gs.Ensures("the headers are the real writer's", gs.Same(h, w.Header()))
	gs.Ensures("what is written goes to the real writer, once", gs.Count("Writer.Write") == 1 && gs.Arg[any]("Writer.Write", 0, 0) == any(w) && gs.Arg[string]("Writer.Write", 0, 1) == gs.StrOf(b))
	gs.Ensures("with its result", n == gs.Ret[int]("Writer.Write", 0, 0) && err == gs.Ret[error]("Writer.Write", 0, 1))
	gs.AnyFrame()
}

//@ contract (*ResponseWriter).Status
func ctStatus(r *ResponseWriter, status int) {
	gs.Property("C06")
	gs.Requires(r != nil)
	gs.Ensures("200 until a status is set", gs.Ite(r.wroteHeader, status == r.status, status == 200))
	gs.NoPanic()
	gs.InlineAtCalls()
}
