//go:build verif

package gotsrpc

import (
	"net/http"
	"reflect"
	"time"

	"github.com/ugorji/go/codec"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

//@ contract init#1
func ctInit() {
	gs.Property("C05", "C12", "C13")
	gs.Ensures("the JSON codec is a JSON codec", gs.IsType[*codec.JsonHandle](jsonClientHandle.handle))
	gs.Ensures("that leaves times to the registered extension", jsonClientHandle.handle.(*codec.JsonHandle).TimeNotBuiltin && gs.Count("codec.JsonHandle.SetInterfaceExt") == 1 && any(gs.Arg[*codec.JsonHandle]("codec.JsonHandle.SetInterfaceExt", 0, 0)) == any(jsonClientHandle.handle) && gs.Arg[reflect.Type]("codec.JsonHandle.SetInterfaceExt", 0, 1) == reflect.TypeOf(time.Time{}) && any(gs.Arg[codec.InterfaceExt]("codec.JsonHandle.SetInterfaceExt", 0, 3)) == any(timeExt), "C12")
	gs.Ensures("a failed registration is not ignored", gs.Ret[error]("codec.JsonHandle.SetInterfaceExt", 0, 0) == nil, "C12")
	gs.Ensures("the msgpack codec is a msgpack codec", gs.IsType[*codec.MsgpackHandle](msgpackClientHandle.handle))
	gs.Ensures("that writes strings as strings and reads maps by name", msgpackClientHandle.handle.(*codec.MsgpackHandle).RawToString && msgpackClientHandle.handle.(*codec.MsgpackHandle).MapType == reflect.TypeOf(map[string]interface{}(nil)), "C05")
	gs.AnyFrame()
}

//@ contract NewClient
func ctNewClient(c Client) {
	gs.Property("C05", "C08")
	gs.Ensures("a client that speaks msgpack and has no default headers", gs.IsType[*bufferedClient](c) && c.(*bufferedClient) != nil && c.(*bufferedClient).handle == msgpackClientHandle && len(c.(*bufferedClient).headers) == 0)
	gs.AnyFrame()
}

//@ contract NewClientWithHttpClient
func ctNewClientWith(client *http.Client, c Client) {
	gs.Property("C05", "C08")
	gs.Ensures("a client that speaks msgpack and has no default headers", gs.IsType[*bufferedClient](c) && c.(*bufferedClient) != nil && c.(*bufferedClient).handle == msgpackClientHandle && len(c.(*bufferedClient).headers) == 0)
	gs.Ensures("using the given HTTP client", gs.Implies(client != nil, c.(*bufferedClient).client == client))
	gs.AnyFrame()
}

//@ contract (*bufferedClient).SetClientEncoding
func ctSetEncoding(c *bufferedClient, encoding ClientEncoding) {
	gs.Property("C05")
	gs.Requires(c != nil)
	gs.Ensures("the encoding is used from then on", gs.Ite(encoding == EncodingMsgpack, c.handle == msgpackClientHandle, c.handle == jsonClientHandle))
	gs.Ensures("nothing else changes", gs.Same(c.headers, gs.Old(c.headers)) && c.client == gs.Old(c.client))
	gs.Assigns(c)
	gs.NoPanic()
}

//@ contract (*bufferedClient).SetTransportHttpClient
func ctSetTransport(c *bufferedClient, client *http.Client) {
	gs.Property("C08")
	gs.Requires(c != nil)
	gs.Ensures("the HTTP client is used from then on", c.client == client && c.handle == gs.Old(c.handle) && gs.Same(c.headers, gs.Old(c.headers)))
	gs.Assigns(c)
	gs.NoPanic()
}

//@ contract (*bufferedClient).SetDefaultHeaders
func ctSetHeaders(c *bufferedClient, headers http.Header) {
	gs.Property("C08")
	gs.Requires(c != nil)
	gs.Ensures("the headers are sent from then on", gs.Forall(func(k string) bool {
		return gs.Has(c.headers, k) == gs.Old(gs.Has(headers, k)) && gs.Same(c.headers[k], gs.Old(headers[k]))
	}))
	gs.Ensures("nothing else changes", c.handle == gs.Old(c.handle) && c.client == gs.Old(c.client))
	gs.Assigns(c)
	gs.NoPanic()
}
