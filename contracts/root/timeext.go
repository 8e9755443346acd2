//go:build verif

package gotsrpc

import (
	"time"

	gs "github.com/foomo/gotsrpc/v2/verifspec"
)

//@ contract (*TimeExt).ConvertExt
func ctTimeConvert(x *TimeExt, v interface{}, r interface{}) {
	gs.Property("C12")
	gs.Requires(gs.IsType[*time.Time](v) && v.(*time.Time) != nil)
	gs.Ensures("a time is encoded as its Unix milliseconds", gs.IsType[int64](r) && r.(int64) == v.(*time.Time).UnixMilli())
	gs.NoPanic()
}

//@ contract (*TimeExt).UpdateExt
func ctTimeUpdate(x *TimeExt, dest interface{}, src interface{}) {
	gs.Property("C12")
	gs.Requires(gs.IsType[*time.Time](dest) && dest.(*time.Time) != nil, gs.IsType[int64](src))
	gs.Ensures("the decoded time is the transmitted millisecond", dest.(*time.Time).UnixMilli() == src.(int64))
	gs.Ensures("the decoded time is a whole millisecond", dest.(*time.Time).Nanosecond()%1000000 == 0)
	gs.Assigns(dest.(*time.Time))
	gs.NoPanic()
}

// lemma: decoding what was encoded gives the same instant, to the millisecond
func lemmaTimeRoundTrip(x *TimeExt, t *time.Time, d *time.Time) {
	x.UpdateExt(d, x.ConvertExt(t))
}

//@ contract lemmaTimeRoundTrip
func ctTimeRoundTrip(x *TimeExt, t *time.Time, d *time.Time) {
	gs.Property("C12")
	gs.Requires(t != nil, d != nil)
	gs.Ensures("decode after encode is the identity on milliseconds", d.UnixMilli() == gs.Old(t.UnixMilli()))
	gs.Assigns(d)
	gs.NoPanic()
}
