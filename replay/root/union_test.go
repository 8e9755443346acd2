package gotsrpc

import (
	"reflect"
	"testing"
)

type verifUA struct{ A string }
type verifUB struct{ B int }

type verifUnion1 struct {
	X *verifUA
	Y *verifUB
	Z *string
}

type verifUnion2 struct {
	S string
	I interface{}
	N int
	B verifUB
}

type verifUnion3 struct {
	X *verifUA `json:"x,omitempty" gotsrpc:"union"`
	N int      `gotsrpc:"union"`
}

func (v *verifRun) union() (u interface{}, want interface{}) {
	switch v.rng.Intn(4) {
	case 0:
		var x verifUnion1
		if v.rng.Intn(2) == 0 {
			s := v.str()
			x.Z, want = &s, s
		}
		if v.rng.Intn(2) == 0 {
			x.Y = &verifUB{v.rng.Intn(3)}
			want = *x.Y
		}
		if v.rng.Intn(2) == 0 {
			x.X = &verifUA{v.str()}
			want = *x.X
		}
		return x, want
	case 1:
		var x verifUnion2
		if v.rng.Intn(2) == 0 {
			x.B = verifUB{1 + v.rng.Intn(3)}
			want = x.B
		}
		if v.rng.Intn(2) == 0 {
			x.N = v.rng.Intn(3) - 1
			if x.N != 0 {
				want = x.N
			}
		}
		if v.rng.Intn(2) == 0 {
			x.I = 0
			want = x.I
		}
		if v.rng.Intn(2) == 0 {
			x.S = v.str()
			if x.S != "" {
				want = x.S
			}
		}
		return x, want
	case 2:
		var x verifUnion3
		if v.rng.Intn(2) == 0 {
			x.N, want = 5, 5
		}
		if v.rng.Intn(2) == 0 {
			x.X = &verifUA{}
			want = *x.X
		}
		return x, want
	default:
		return struct{}{}, nil
	}
}

func TestVerifC13_Convert(t *testing.T) {
	v := newVerifRun(t)
	for i := 0; i < v.rounds(1500); i++ {
		u, want := v.union()
		p := reflect.New(reflect.TypeOf(u))
		p.Elem().Set(reflect.ValueOf(u))
		for _, in := range []interface{}{u, p.Interface()} {
			var got interface{}
			pn := verifTry(func() { got = unionExt.ConvertExt(in) })
			if !v.ok(pn == nil, "converting %T%+v panics: %v", in, u, pn) {
				continue
			}
			if got != nil {
				if g := reflect.ValueOf(got); g.Kind() == reflect.Ptr && (want == nil || reflect.TypeOf(want).Kind() != reflect.Ptr) {
					got = g.Elem().Interface()
				}
			}
			v.ok(reflect.DeepEqual(got, want), "%T%+v is sent as %T(%+v) instead of %T(%+v)", in, u, got, got, want, want)
		}
	}
}

func TestVerifC13_Register(t *testing.T) {
	v := newVerifRun(t)
	type u1 struct{ A, B *int }
	type u2 struct{ A, B *int }
	type u3 struct{ A, B *int }
	n := 7
	enc := func(x interface{}) string { return verifEnc(false, x) }
	v.ok(RegisterUnionExt(u1{}, u2{}) == nil, "registering two unions fails")
	MustRegisterUnionExt(u3{})
	for _, x := range []interface{}{u1{B: &n}, u2{B: &n}, u3{B: &n}, &u1{B: &n}, &u3{B: &n}} {
		v.ok(enc(x) == "7", "the union %T%+v is encoded as %s", x, x, enc(x))
	}
	for _, x := range []interface{}{u1{}, u2{}, u3{}} {
		v.ok(enc(x) == "null", "the empty union %T is encoded as %s", x, enc(x))
	}
	v.ok(enc(u1{A: &n, B: new(int)}) == "7", "a union with two members is encoded as %s", enc(u1{A: &n, B: new(int)}))
	v.ok(RegisterUnionExt() == nil, "registering nothing fails")
	type u4 struct{ A, B *int }
	for pos := 0; pos < 3; pos++ {
		vals := []interface{}{u4{}, u4{}, u4{}}
		vals[pos] = nil
		var err error
		p := verifTry(func() { err = RegisterUnionExt(vals...) })
		v.ok(p != nil || err != nil, "a failing registration at %d is not reported", pos)
		v.ok(verifTry(func() { MustRegisterUnionExt(vals...) }) != nil, "MustRegisterUnionExt does not panic")
	}
	jh := jsonClientHandle
	saved := jh.handle
	jh.handle = msgpackClientHandle.handle
	v.ok(RegisterUnionExt(u4{}, u4{}) != nil && SetJSONExt(u4{}, 1, unionExt) != nil, "registering with a wrong handle succeeds")
	jh.handle = saved
}
