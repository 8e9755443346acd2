package gotsrpc

import (
	"bytes"
	"math"
	"strconv"
	"testing"
	"time"

	"github.com/ugorji/go/codec"
)

func TestVerifC12_RoundTrip(t *testing.T) {
	v := newVerifRun(t)
	handle := jsonClientHandle.handle
	check := func(tm time.Time) {
		ms := tm.UnixMilli()
		var b bytes.Buffer
		if err := codec.NewEncoder(&b, handle).Encode([]time.Time{tm}); !v.ok(err == nil, "time %v (%d ms) does not encode: %v", tm, ms, err) {
			return
		}
		v.ok(b.String() == "["+strconv.FormatInt(ms, 10)+"]", "time %v (%d ms) is sent as %s", tm, ms, b.String())
		var got []time.Time
		if err := codec.NewDecoderBytes(b.Bytes(), handle).Decode(&got); !v.ok(err == nil && len(got) == 1, "time %d ms does not decode: %v", ms, err) {
			return
		}
		v.ok(got[0].Equal(time.UnixMilli(ms)), "time %v (%d ms) arrives as %v (%d ms)", tm, ms, got[0], got[0].UnixMilli())
	}
	x := &TimeExt{}
	direct := func(ms int64) {
		var d time.Time
		x.UpdateExt(&d, ms)
		v.ok(d.Equal(time.UnixMilli(ms)), "%d ms decodes to %v", ms, d)
		s := time.UnixMilli(ms)
		v.ok(x.ConvertExt(&s) == interface{}(ms), "%v encodes as %v", s, x.ConvertExt(&s))
	}
	edges := []int64{0, 1, -1, 999, 1000, -999, -1000, -1001, 1 << 31, 1 << 32, -1 << 40, 253402300799999, -62135596800000, -9223372036855, 9223372036855, 9223372036854, -62135596800001, 1577836800001}
	for _, s := range v.vals {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && n > math.MinInt64/2 && n < math.MaxInt64/2 {
			edges = append(edges, n)
		}
	}
	for _, ms := range edges {
		direct(ms)
		check(time.UnixMilli(ms))
		check(time.UnixMilli(ms).Add(time.Duration(v.rng.Intn(999999))).UTC())
	}
	for i := 0; i < v.rounds(1500); i++ {
		ms := v.rng.Int63n(int64(1)<<uint(10+v.rng.Intn(38))) - v.rng.Int63n(int64(1)<<uint(10+v.rng.Intn(38)))
		direct(ms)
		loc := time.FixedZone("z", v.rng.Intn(86400)-43200)
		check(time.UnixMilli(ms).Add(time.Duration(v.rng.Intn(1000000))).In(loc))
	}
}

// A time that is itself an argument or a result is encoded by the codec
// library before it asks for extensions.
func TestVerifC12_Element(t *testing.T) {
	v := newVerifRun(t)
	tm := time.UnixMilli(1700000000123).UTC()
	var b bytes.Buffer
	err := codec.NewEncoder(&b, jsonClientHandle.handle).Encode([]interface{}{tm})
	v.known("json-time-element", err == nil && b.String() == "[1700000000123]", "%v as an argument or result is sent as %s", tm, b.String())
	b.Reset()
	type inside struct{ T time.Time }
	err = codec.NewEncoder(&b, jsonClientHandle.handle).Encode([]interface{}{inside{tm}, []time.Time{tm}, map[string]time.Time{"a": tm}, []*time.Time{&tm}})
	v.ok(err == nil && b.String() == `[{"T":1700000000123},[1700000000123],{"a":1700000000123},[1700000000123]]`, "times within arguments or results are sent as %s", b.String())
}
