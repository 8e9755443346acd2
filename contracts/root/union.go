//go:build verif

package gotsrpc

import (
	"reflect"

	"github.com/ugorji/go/codec"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

// unionOf is the struct a union value or a pointer to one refers to.
//
//@ spec
func unionOf(v any) reflect.Value {
	if reflect.ValueOf(v).Kind() == reflect.Ptr {
		return reflect.ValueOf(v).Elem()
	}
	return reflect.ValueOf(v)
}

//@ contract (*UnionExt).ConvertExt
func ctUnionConvert(x *UnionExt, v interface{}, r interface{}) {
	gs.Property("C13")
	gs.Ensures("the first set member in declaration order, null if none is set", gs.Ite(gs.Exists(func(k int) bool {
		return 0 <= k && k < unionOf(v).NumField() && !unionOf(v).Field(k).IsZero()
	}), gs.Exists(func(k int) bool {
		return 0 <= k && k < unionOf(v).NumField() && !unionOf(v).Field(k).IsZero() && r == unionOf(v).Field(k).Interface() && gs.Forall(func(j int) bool {
			return gs.Implies(0 <= j && j < k, unionOf(v).Field(j).IsZero())
		})
	}), r == nil))
	gs.Invariant("no member before the current one is set", func(i int) bool {
		return 0 <= i && gs.Forall(func(j int) bool { return gs.Implies(0 <= j && j < i, unionOf(v).Field(j).IsZero()) })
	})
}

// registered: the JSON codec encodes values of v's type as unions.
//
//@ spec
func registered(v any) bool {
	return gs.UF[bool]("ext.registered", reflect.TypeOf(v), codec.InterfaceExt(unionExt))
}

// registration: the result of registering v's type.
//
//@ spec
func registration(v any) error {
	return gs.UF[error]("ext.result", reflect.TypeOf(v), uint64(1), codec.InterfaceExt(unionExt))
}

//@ contract RegisterUnionExt
func ctRegisterUnion(v []interface{}, err error) {
	gs.Property("C13")
	gs.Requires(gs.IsType[*codec.JsonHandle](jsonClientHandle.handle))
	gs.Invariant("every union before the current one is registered", func(i int) bool {
		return gs.Forall(func(k int) bool {
			return gs.Implies(0 <= k && k < i, registered(v[k]) && registration(v[k]) == nil)
		})
	})
	gs.Ensures("success means all are registered", gs.Implies(err == nil, gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(v), registered(v[k]) && registration(v[k]) == nil)
	})))
	gs.Ensures("the first failure is reported", gs.Implies(err != nil, gs.Exists(func(k int) bool {
		return 0 <= k && k < len(v) && err == registration(v[k]) && gs.Forall(func(j int) bool {
			return gs.Implies(0 <= j && j < k, registered(v[j]) && registration(v[j]) == nil)
		})
	})))
	gs.AnyFrame()
}

//@ contract SetJSONExt
func ctSetJSONExt(rt interface{}, tag uint64, ext codec.InterfaceExt, err error) {
	gs.Property("C13", "C12")
	gs.Requires(gs.IsType[*codec.JsonHandle](jsonClientHandle.handle))
	gs.Ensures("the type is registered with the JSON codec, once", gs.Count("codec.JsonHandle.SetInterfaceExt") == 1 && any(gs.Arg[*codec.JsonHandle]("codec.JsonHandle.SetInterfaceExt", 0, 0)) == any(gs.Old(jsonClientHandle.handle)) && gs.Arg[reflect.Type]("codec.JsonHandle.SetInterfaceExt", 0, 1) == reflect.TypeOf(rt) && gs.Arg[uint64]("codec.JsonHandle.SetInterfaceExt", 0, 2) == tag && gs.Arg[codec.InterfaceExt]("codec.JsonHandle.SetInterfaceExt", 0, 3) == ext)
	gs.Ensures("its failure is reported", err == gs.Ret[error]("codec.JsonHandle.SetInterfaceExt", 0, 0))
	gs.AnyFrame()
	gs.InlineAtCalls()
}

//@ contract SetMSGPackExt
func ctSetMsgpackExt(rt interface{}, tag uint64, ext codec.BytesExt, err error) {
	gs.Property("C13")
	gs.Requires(gs.IsType[*codec.MsgpackHandle](msgpackClientHandle.handle))
	gs.Ensures("the type is registered with the msgpack codec, once", gs.Count("codec.MsgpackHandle.SetBytesExt") == 1 && any(gs.Arg[*codec.MsgpackHandle]("codec.MsgpackHandle.SetBytesExt", 0, 0)) == any(gs.Old(msgpackClientHandle.handle)) && gs.Arg[reflect.Type]("codec.MsgpackHandle.SetBytesExt", 0, 1) == reflect.TypeOf(rt) && gs.Arg[uint64]("codec.MsgpackHandle.SetBytesExt", 0, 2) == tag && gs.Arg[codec.BytesExt]("codec.MsgpackHandle.SetBytesExt", 0, 3) == ext)
	gs.Ensures("its failure is reported", err == gs.Ret[error]("codec.MsgpackHandle.SetBytesExt", 0, 0))
	gs.AnyFrame()
	gs.InlineAtCalls()
}

//@ contract MustRegisterUnionExt
func ctMustRegisterUnion(v []interface{}) {
	gs.Property("C13")
	gs.Requires(gs.IsType[*codec.JsonHandle](jsonClientHandle.handle))
	gs.Ensures("returns only if all are registered", gs.Forall(func(k int) bool {
		return gs.Implies(0 <= k && k < len(v), registered(v[k]))
	}))
	gs.AnyFrame()
}
