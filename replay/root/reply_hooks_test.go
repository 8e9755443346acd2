package gotsrpc

import (
	"reflect"
	"testing"
)

func (v *verifRun) replyValue() interface{} {
	switch v.rng.Intn(9) {
	case 0:
		return v.chain(v.rng.Intn(3))
	case 1:
		var e error
		return e
	case 2:
		var e *verifErrPtr
		return e
	case 3:
		return v.str()
	case 4:
		return v.rng.Intn(5)
	case 5:
		return []string{v.str()}
	case 6:
		return verifErrStruct{}
	case 7:
		return verifErrString("")
	default:
		return &Error{Msg: v.str()}
	}
}

func TestVerifC11_Encode(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(1500); i++ {
		vals := make([]interface{}, v.rng.Intn(6))
		for k := range vals {
			vals[k] = v.replyValue()
		}
		orig := append([]interface{}{}, vals...)
		got := vals
		var err error
		p := verifTry(func() { err = msgpackClientHandle.beforeEncodeReply(&got) })
		if !v.ok(p == nil && err == nil, "the encode hook fails on %v: %v %v", orig, p, err) {
			continue
		}
		if !v.ok(len(got) == len(orig), "the encode hook turns %d values into %d", len(orig), len(got)) {
			continue
		}
		for k := range orig {
			e, isErr := orig[k].(error)
			if isErr && !reflect.ValueOf(e).IsZero() {
				g, ok := got[k].(*Error)
				v.ok(ok && reflect.DeepEqual(g, NewError(e)), "value %d of %d, %T(%v), is encoded as %T(%v)", k, len(orig), orig[k], orig[k], got[k], got[k])
			} else {
				v.ok(reflect.DeepEqual(got[k], orig[k]), "value %d of %d, %T(%v), is encoded as %T(%v)", k, len(orig), orig[k], orig[k], got[k], got[k])
			}
		}
	}
}

func TestVerifC11_Decode(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(1500); i++ {
		n := v.rng.Intn(6)
		reply := make([]interface{}, n)
		kind := make([]int, n)
		pre := verifErrString("before")
		for k := range reply {
			kind[k] = v.rng.Intn(4)
			switch kind[k] {
			case 0:
				reply[k] = new(string)
			case 1:
				e := error(pre)
				reply[k] = &e
			case 2:
				reply[k] = new(verifErrStruct)
			case 3:
				reply[k] = new(int)
			}
		}
		orig := append([]interface{}{}, reply...)
		var wrapped []interface{}
		var err error
		p := verifTry(func() { wrapped, err = msgpackClientHandle.beforeDecodeReply(reply) })
		if !v.ok(p == nil && err == nil && len(wrapped) == n, "the decode hook gives %d targets for %d values: %v %v", len(wrapped), n, p, err) {
			continue
		}
		sent := make([]*Error, n)
		for k := range reply {
			v.ok(reply[k] == orig[k], "the decode hook replaces target %d", k)
			switch kind[k] {
			case 0, 3:
				v.ok(wrapped[k] == reply[k], "value %d decodes into another target", k)
			default:
				w, ok := wrapped[k].(*Error)
				v.ok(ok && w == nil, "error %d decodes into %T", k, wrapped[k])
				if v.rng.Intn(2) == 0 {
					sent[k] = &Error{Msg: v.str(), Type: "x", Data: map[string]interface{}{"Code": k + 1, "Text": "t"}}
					wrapped[k] = sent[k]
				}
			}
		}
		r2 := reply
		p = verifTry(func() { err = msgpackClientHandle.afterDecodeReply(&r2, wrapped) })
		if !v.ok(p == nil && err == nil, "translating errors back fails: %v %v", p, err) {
			continue
		}
		for k := range orig {
			v.ok(r2[k] == orig[k], "target %d is replaced", k)
			switch kind[k] {
			case 1:
				got := *(orig[k].(*error))
				if sent[k] != nil {
					v.ok(got == error(sent[k]), "error %d of %d does not arrive in its target: %v", k, n, got)
				} else {
					v.ok(got == error(pre), "a target nothing was sent for changes to %v", got)
				}
			case 2:
				got := *(orig[k].(*verifErrStruct))
				if sent[k] != nil {
					v.ok(got == verifErrStruct{k + 1, "t"}, "typed error %d of %d arrives as %#v", k, n, got)
				} else {
					v.ok(got == verifErrStruct{}, "a typed target nothing was sent for changes to %#v", got)
				}
			}
		}
	}
}
