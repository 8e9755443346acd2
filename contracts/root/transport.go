//go:build verif

package gotsrpc

import (
	"reflect"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

const (
	specMsgpack = "application/msgpack; charset=utf-8"
	specJSON    = "application/json; charset=utf-8"
)

//@ contract getHandlerForContentType
func ctHandlerForContentType(contentType string, h *clientHandle) {
	gs.Property("C05", "C02", "C07")
	gs.Ensures("msgpack exactly for the msgpack media type, JSON otherwise", gs.Ite(contentType == specMsgpack, h == msgpackClientHandle, h == jsonClientHandle))
	gs.Ensures("the codec announces its own media type", h != nil && gs.Ite(contentType == specMsgpack, h.contentType == specMsgpack, h.contentType == specJSON))
	gs.Ensures("the two codecs are different", msgpackClientHandle != jsonClientHandle)
	gs.NoPanic()
	gs.InlineAtCalls()
}

//@ contract getHandleForEncoding
func ctHandleForEncoding(encoding ClientEncoding, h *clientHandle) {
	gs.Property("C05")
	gs.Ensures("msgpack exactly for the msgpack encoding, JSON otherwise", gs.Ite(encoding == EncodingMsgpack, h == msgpackClientHandle, h == jsonClientHandle))
	gs.Ensures("the codec announces its own media type", h != nil && gs.Ite(encoding == EncodingMsgpack, h.contentType == specMsgpack, h.contentType == specJSON))
	gs.NoPanic()
	gs.InlineAtCalls()
}

// lemma: the server picks the codec the client announced
func lemmaNegotiation(e ClientEncoding) bool {
	return getHandlerForContentType(getHandleForEncoding(e).contentType) == getHandleForEncoding(e)
}

//@ contract lemmaNegotiation
func ctNegotiation(e ClientEncoding, r bool) {
	gs.Property("C05")
	gs.Ensures("the server picks the codec the client announced", r)
}

// isErrorValue: v is an error with something in it.
//
//@ spec
func isErrorValue(v any) bool {
	return gs.IsType[error](v) && !reflect.ValueOf(v).IsZero()
}

//@ contract msgpackClientHandle.beforeEncodeReply
func ctBeforeEncode(resp *[]interface{}, err error) {
	gs.Property("C11", "C09", "C02")
	gs.Requires(resp != nil)
	gs.Ensures("never fails", err == nil)
	gs.Ensures("no value is added or lost", len(*resp) == gs.Old(len(*resp)))
	gs.Ensures("errors are replaced by their transportable form, in place", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < gs.Old(len(*resp)) && isErrorValue(gs.Old((*resp)[k])),
			gs.IsType[*Error]((*resp)[k]) && transports((*resp)[k].(*Error), gs.Old((*resp)[k]).(error)))
	}))
	gs.Ensures("every other value is left alone", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < gs.Old(len(*resp)) && !isErrorValue(gs.Old((*resp)[k])), (*resp)[k] == gs.Old((*resp)[k]))
	}))
	gs.Invariant("values before the current one are transportable, the rest untouched", func(i int) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < gs.Old(len(*resp)),
				gs.Ite(k < i && isErrorValue(gs.Old((*resp)[k])),
					gs.IsType[*Error]((*resp)[k]) && transports((*resp)[k].(*Error), gs.Old((*resp)[k]).(error)),
					(*resp)[k] == gs.Old((*resp)[k])))
		})
	})
	gs.Assigns(*resp)
}

// errorTarget: the reply position holds a pointer to an error type.
//
//@ spec
func errorTarget(v any) bool {
	t := reflect.TypeOf(v)
	if t.Kind() == reflect.Ptr {
		return t.Elem().Implements(reflect.TypeOf((*error)(nil)).Elem())
	}
	return t.Implements(reflect.TypeOf((*error)(nil)).Elem())
}

//@ contract msgpackClientHandle.beforeDecodeReply
func ctBeforeDecode(reply []interface{}, ret []interface{}, err error) {
	gs.Property("C11")
	gs.Requires(gs.Forall(func(k int) bool { return gs.Implies(0 <= k && k < len(reply), reply[k] != nil) }))
	gs.Ensures("never fails", err == nil)
	gs.Ensures("the targets are a new list", gs.Fresh(ret))
	gs.Ensures("every position has a target", len(ret) == len(reply))
	gs.Ensures("error positions decode a transported error, all others their own target", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(reply), gs.Ite(errorTarget(reply[k]), gs.IsType[*Error](ret[k]) && ret[k].(*Error) == nil, ret[k] == reply[k]))
	}))
	gs.Ensures("the caller's reply is left alone", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(reply), reply[k] == gs.Old(reply[k]))
	}))
	gs.Invariant("positions before the current one are set", func(i int, r []interface{}) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < i, k < len(r) && gs.Ite(errorTarget(reply[k]), gs.IsType[*Error](r[k]) && r[k].(*Error) == nil, r[k] == reply[k]))
		})
	})
	gs.NoPanic()
}

// transported: an error arrived in this position.
//
//@ spec
func transported(v any) bool { return gs.IsType[*Error](v) && v.(*Error) != nil }

//@ contract msgpackClientHandle.afterDecodeReply
func ctAfterDecode(reply *[]interface{}, wrapped []interface{}, err error) {
	gs.Property("C11")
	gs.Requires(reply != nil, len(wrapped) == len(*reply))
	gs.Requires(gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(*reply), (*reply)[k] != nil && gs.Implies(gs.IsType[*error]((*reply)[k]), (*reply)[k].(*error) != nil))
	}))
	gs.Requires(gs.Forall(func(i, j int) bool {
		return gs.Implies(0 <= i && i < j && j < len(*reply), (*reply)[i] != (*reply)[j])
	}))
	gs.Ensures("a transported error arrives in its own position", gs.Implies(err == nil, gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(*reply) && transported(wrapped[k]) && gs.IsType[*error]((*reply)[k]), *((*reply)[k].(*error)) == error(wrapped[k].(*Error)))
	})))
	gs.Ensures("an error position nothing arrived for is left alone", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(*reply) && !transported(wrapped[k]) && gs.IsType[*error]((*reply)[k]), *((*reply)[k].(*error)) == gs.Old(*((*reply)[k].(*error))))
	}))
	gs.Ensures("the positions stay", len(*reply) == gs.Old(len(*reply)) && gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(*reply), (*reply)[k] == gs.Old((*reply)[k]))
	}))
	gs.Invariant("errors before the current position are set", func(i int) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(*reply) && gs.IsType[*error]((*reply)[k]), gs.Ite(k < i && transported(wrapped[k]), *((*reply)[k].(*error)) == error(wrapped[k].(*Error)), *((*reply)[k].(*error)) == gs.Old(*((*reply)[k].(*error)))))
		})
	})
	gs.Invariant("the positions stay", func() bool {
		return len(*reply) == gs.Old(len(*reply)) && gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < len(*reply), (*reply)[k] == gs.Old((*reply)[k]))
		})
	})
	gs.AnyFrame()
}
