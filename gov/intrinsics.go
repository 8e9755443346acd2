package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"net/textproto"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"unicode"
)

type intrinsic func(ex *Exec, fr *Frame, st *State, args []Val, ci *callInfo) []Outcome

// intrinsics are the modelled dependencies: each entry is an assumption about
// a function outside foomo/gotsrpc (listed in DESIGN.md).
var intrinsics map[string]intrinsic

// intrinsicEmits: observable events a modelled dependency produces.
var intrinsicEmits = map[string][]string{
	"fmt.Fprintln": {"Writer.Write"}, "fmt.Fprintf": {"Writer.Write"}, "fmt.Fprint": {"Writer.Write"}, "io.WriteString": {"Writer.Write"},
	"http.ResponseWriter.Write": {"Writer.Write"}, "io.Copy": {"Writer.Write"},
}

func one(st *State, v Val) []Outcome { return []Outcome{{st: st, rets: []Val{v}}} }

// pureFn: a pure library function; constant arguments are evaluated with the
// real function, others give an uninterpreted function.
func pureFn(name string, f interface{}) intrinsic {
	return func(ex *Exec, fr *Frame, st *State, args []Val, ci *callInfo) []Outcome {
		rv := reflect.ValueOf(f)
		rt := rv.Type()
		var in []reflect.Value
		ok := !rt.IsVariadic()
		var ts []*Term
		for i, a := range args {
			t := ex.term(st, a)
			ts = append(ts, t)
			if !ok || i >= rt.NumIn() {
				continue
			}
			switch {
			case t.op == "str" && rt.In(i).Kind() == reflect.String:
				in = append(in, reflect.ValueOf(t.sval).Convert(rt.In(i)))
			case t.op == "int" && (rt.In(i).Kind() == reflect.Int || rt.In(i).Kind() == reflect.Int32 || rt.In(i).Kind() == reflect.Uint8):
				in = append(in, reflect.ValueOf(t.ival.Int64()).Convert(rt.In(i)))
			default:
				ok = false
			}
		}
		if ok && len(in) == rt.NumIn() && rt.NumIn() > 0 {
			out := rv.Call(in)
			var rets []Val
			good := true
			for _, o := range out {
				switch o.Kind() {
				case reflect.String:
					rets = append(rets, ex.c.Str(o.String()))
				case reflect.Bool:
					rets = append(rets, ex.c.Bool(o.Bool()))
				case reflect.Int, reflect.Int32, reflect.Int64:
					rets = append(rets, ex.c.Int(o.Int()))
				case reflect.Uint8:
					rets = append(rets, ex.c.Int(int64(o.Uint())))
				default:
					good = false
				}
			}
			if good {
				return []Outcome{{st: st, rets: rets}}
			}
		}
		var rets []Val
		for i := 0; i < ci.sig.Results().Len(); i++ {
			n := name
			if i > 0 {
				n = fmt.Sprintf("%s#%d", name, i)
			}
			rets = append(rets, ex.funVal(st, n, ci.sig.Results().At(i).Type(), ts...))
		}
		return []Outcome{{st: st, rets: rets}}
	}
}

func (ex *Exec) itoa(t *Term) *Term {
	c := ex.c
	if t.op == "int" {
		return c.Str(t.ival.String())
	}
	pos := c.op("str.from_int", SStr, t)
	neg := c.Concat(c.Str("-"), c.op("str.from_int", SStr, c.Neg(t)))
	return c.Ite(c.Le(c.Int(0), t), pos, neg)
}

// sliceTerms: the elements of a slice of known length.
func (ex *Exec) sliceTerms(st *State, s *Term, es Sort) ([]*Term, bool) {
	c := ex.c
	n := c.Sel("sl.len", s)
	if n.op != "int" || n.ival.Int64() > 64 {
		return nil, false
	}
	h := ex.H(st, "E:"+string(es), SArr(SInt, SArr(SInt, es)))
	cont := c.Select(h, c.Sel("sl.arr", s))
	var out []*Term
	for i := int64(0); i < n.ival.Int64(); i++ {
		out = append(out, c.Select(cont, c.Add(c.Sel("sl.off", s), c.Int(i))))
	}
	return out, true
}

func (ex *Exec) seqOfSlice(st *State, s *Term, es Sort) *Term {
	c := ex.c
	h := ex.H(st, "E:"+string(es), SArr(SInt, SArr(SInt, es)))
	return c.SQ(c.Select(h, c.Sel("sl.arr", s)), c.Sel("sl.off", s), c.Sel("sl.len", s))
}

// newSlice: a fresh slice with the content of a sequence.
func (ex *Exec) newSlice(st *State, seq *Term) *Term {
	c := ex.c
	es := seqElem(seq.sort)
	ref := ex.newRef(st)
	hs := SArr(SInt, SArr(SInt, es))
	ex.storeH(st, "E:"+string(es), hs, ref, c.App("seqarr", SArr(SInt, es), seq))
	n := c.SeqLen(seq)
	return c.op("mkslice", SSlice, ref, c.Int(0), n, n)
}

// formatArg renders one operand of a fmt verb.
func (ex *Exec) formatArg(fr *Frame, st *State, verb byte, a *Term) *Term {
	c := ex.c
	if a.op == "ite" {
		return c.Ite(a.args[0], ex.formatArg(fr, st, verb, a.args[1]), ex.formatArg(fr, st, verb, a.args[2]))
	}
	if verb == 'T' {
		return ex.typeString(c.TagOf(a))
	}
	if n, ok := ex.knownTag(st, a); ok && n != 0 {
		T := ex.eng.tags.Type(n)
		hasM := func(m string) bool {
			ms := types.NewMethodSet(T)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					return true
				}
			}
			return false
		}
		if verb == 's' || verb == 'v' {
			if !hasM("Error") && !hasM("String") && !hasM("Format") {
				switch ctorFor(T) {
				case "istr":
					return c.Sel("istr.val", a)
				case "iint":
					if verb == 'v' {
						return ex.itoa(c.Sel("iint.val", a))
					}
				case "ibool":
					return c.Ite(c.Sel("ibool.val", a), c.Str("true"), c.Str("false"))
				}
			} else if hasM("Error") && !hasM("Format") {
				if s := ex.pureMethod(fr, st, a, T, "Error"); s != nil {
					return s
				}
			}
		}
		if verb == 'd' && ctorFor(T) == "iint" {
			return ex.itoa(c.Sel("iint.val", a))
		}
		if verb == 'q' && ctorFor(T) == "istr" && !hasM("String") && !hasM("Error") {
			return ex.quote(c.Sel("istr.val", a))
		}
	}
	return c.App("fmt:"+string(verb), SStr, a)
}

func (ex *Exec) quote(t *Term) *Term {
	c := ex.c
	if t.op == "str" {
		return c.Str(strconv.Quote(t.sval))
	}
	return c.App("strconv.Quote", SStr, t)
}

// pureMethod evaluates a method without arguments as an expression.
func (ex *Exec) pureMethod(fr *Frame, st *State, recv *Term, T types.Type, name string) (res *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	obj, _, _ := types.LookupFieldOrMethod(T, true, nil, name)
	m, ok := obj.(*types.Func)
	if !ok {
		return nil
	}
	v := &ev{ex: ex, fr: fr, st: st, oldH: st.heaps}
	r := v.pure(func(s *State) []Outcome { return ex.invokeMethod(fr, s, recv, T, m, nil, nil) })
	t, _ := r.(*Term)
	return t
}

func (ex *Exec) sprintf(fr *Frame, st *State, format *Term, args []*Term, known bool) *Term {
	c := ex.c
	if format.op != "str" || !known {
		ts := append([]*Term{format}, args...)
		return c.App(fmt.Sprintf("fmt.Sprintf%d", len(ts)), SStr, ts...)
	}
	f := format.sval
	var parts []*Term
	i, k := 0, 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, c.Str(f[i:]))
			break
		}
		parts = append(parts, c.Str(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			parts = append(parts, c.Str("%"))
			i++
			continue
		}
		st0 := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		flags := f[st0:i]
		verb := f[i]
		i++
		if k >= len(args) {
			parts = append(parts, c.Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[k]
		k++
		if flags == "" {
			parts = append(parts, ex.formatArg(fr, st, verb, a))
		} else {
			parts = append(parts, c.App("fmt:"+flags+string(verb), SStr, a))
		}
	}
	return c.Concat(parts...)
}

func (ex *Exec) variadic(st *State, v Val) ([]*Term, bool) {
	s := ex.term(st, v)
	ts, ok := ex.sliceTerms(st, s, SIface)
	if !ok {
		return []*Term{ex.seqOfSlice(st, s, SIface)}, false
	}
	return ts, true
}

// write records output on a writer.
func (ex *Exec) write(fr *Frame, st *State, w *Term, data *Term, ci *callInfo) (n Val, err Val) {
	c := ex.c
	hs := SArr(SIface, SStr)
	if t, ok := ex.knownTag(st, w); ok && t != 0 {
		if types.TypeString(ex.eng.tags.Type(t), nil) == "*bytes.Buffer" {
			ref := c.Sel("iref.ref", w)
			ex.bufAppend(st, ref, data)
			return c.Len(data), c.INil()
		}
	}
	h := ex.H(st, "GH:out", hs)
	ex.setH(st, "GH:out", c.Store(h, w, c.Concat(c.Select(h, w), data)))
	return c.Fresh("written", SInt), c.Fresh("writeErr", SIface)
}

func (ex *Exec) bufAppend(st *State, ref, data *Term) {
	c := ex.c
	hs := SArr(SInt, SStr)
	h := ex.H(st, "GH:buf", hs)
	ex.storeH(st, "GH:buf", hs, ref, c.Concat(c.Select(h, ref), data))
}

func (ex *Exec) bufContent(st *State, ref *Term) *Term {
	return ex.c.Select(ex.H(st, "GH:buf", SArr(SInt, SStr)), ref)
}

// bufferType is *bytes.Buffer.
func (e *Engine) bufferType() types.Type {
	p := e.prog.ImportedPackage("bytes")
	if p == nil {
		unsup("no package bytes")
	}
	return types.NewPointer(p.Pkg.Scope().Lookup("Buffer").Type())
}

// readAll reads a reader to its end (event "io.Drain": reader; content, error).
func (ex *Exec) readAll(fr *Frame, st *State, r *Term) []Outcome {
	any := types.NewInterfaceType(nil, nil)
	res := types.NewTuple(types.NewParam(0, nil, "data", types.Typ[types.String]), types.NewParam(0, nil, "err", types.Universe.Lookup("error").Type()))
	e := &callInfo{name: "io.Drain", sig: types.NewSignatureType(nil, nil, nil, nil, res, false), argT: []types.Type{any}}
	return ex.withEvent(fr, st, e, []Val{r}, func(s *State) []Outcome {
		data := ex.c.App("contentOf", SStr, r)
		bad := s.clone()
		err := ex.c.Fresh("readErr", SIface)
		bad.assume(ex.c, ex.c.Not(ex.c.Eq(err, ex.c.INil())))
		return []Outcome{{st: s, rets: []Val{data, ex.c.INil()}}, {st: bad, rets: []Val{ex.c.Fresh("partial", SStr), err}}}
	})
}

// drain copies a reader to a writer.
func (ex *Exec) drain(fr *Frame, st *State, w, r *Term, ci *callInfo) []Outcome {
	var out []Outcome
	for _, o := range ex.readAll(fr, st, r) {
		data, err := ex.term(o.st, o.rets[0]), ex.term(o.st, o.rets[1])
		if n, ok := ex.knownTag(o.st, w); ok && n != 0 && types.TypeString(ex.eng.tags.Type(n), nil) == "*bytes.Buffer" {
			ex.bufAppend(o.st, ex.c.Sel("iref.ref", w), data)
			out = append(out, Outcome{st: o.st, rets: []Val{ex.c.Len(data), err}})
			continue
		}
		for _, p := range ex.writeEvent(fr, o.st, w, data, ci) {
			e2 := ex.c.Fresh("copyErr", SIface)
			if err.op != "inil" {
				p.st.assume(ex.c, ex.c.Implies(ex.c.Not(ex.c.Eq(err, ex.c.INil())), ex.c.Not(ex.c.Eq(e2, ex.c.INil()))))
			}
			out = append(out, Outcome{st: p.st, rets: []Val{ex.c.Fresh("copied", SInt), e2}})
		}
	}
	return out
}

// writeEvent performs a Write with its event ("Writer.Write": writer, data).
func (ex *Exec) writeEvent(fr *Frame, st *State, w, data *Term, ci *callInfo) []Outcome {
	wc := &callInfo{name: "Writer.Write", sig: ci.sig}
	wc.argT = []types.Type{types.NewInterfaceType(nil, nil), types.Typ[types.String]}
	return ex.withEvent(fr, st, wc, []Val{w, data}, func(s *State) []Outcome {
		n, err := ex.write(fr, s, w, data, ci)
		return []Outcome{{st: s, rets: []Val{n, err}}}
	})
}

func canonHeader(ex *Exec, t *Term) *Term {
	if t.op == "str" {
		return ex.c.Str(textproto.CanonicalMIMEHeaderKey(t.sval))
	}
	return ex.c.App("canonicalHeader", SStr, t)
}

func (ex *Exec) ghostSet(st *State, key string, s Sort, ref, v *Term) {
	hs := SArr(SInt, s)
	ex.storeH(st, "GH:"+key, hs, ref, v)
}
func (ex *Exec) ghostGet(st *State, key string, s Sort, ref *Term) *Term {
	return ex.c.Select(ex.H(st, "GH:"+key, SArr(SInt, s)), ref)
}

// time values: nanoseconds since the epoch as a mathematical integer
func (ex *Exec) timeVal(n *Term, T types.Type) Val {
	c := ex.c
	return &StructV{typ: T, f: []Val{c.App("t.wall", SInt, n), c.App("t.ext", SInt, n), c.Int(0)}}
}
func (ex *Exec) timeNanos(st *State, v Val) *Term {
	sv, ok := v.(*StructV)
	if !ok {
		unsup("time value %T", v)
	}
	w, e := ex.term(st, sv.f[0]), ex.term(st, sv.f[1])
	return ex.nanosOf(w, e)
}
func (ex *Exec) nanosOf(w, e *Term) *Term {
	c := ex.c
	if w.op == "app" && w.sval == "t.wall" && e.op == "app" && e.sval == "t.ext" && w.args[0] == e.args[0] {
		return w.args[0]
	}
	if w.op == "ite" && e.op == "ite" && w.args[0] == e.args[0] {
		return c.Ite(w.args[0], ex.nanosOf(w.args[1], e.args[1]), ex.nanosOf(w.args[2], e.args[2]))
	}
	return c.App("t.nanos", SInt, w, e)
}

func floorDiv(c *Ctx, a *Term, k int64) *Term {
	if a.op == "int" {
		m := new(big.Int)
		q := new(big.Int)
		q.DivMod(a.ival, big.NewInt(k), m)
		return c.BigInt(q)
	}
	return c.op("div", SInt, a, c.Int(k))
}

func init() {
	str := func(ex *Exec, st *State, v Val) *Term { return ex.term(st, v) }
	intrinsics = map[string]intrinsic{
		"strings.TrimPrefix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.TrimPrefix(str(ex, st, a[0]), str(ex, st, a[1])))
		},
		"strings.TrimSuffix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.TrimSuffix(str(ex, st, a[0]), str(ex, st, a[1])))
		},
		"strings.HasPrefix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.PrefixOf(str(ex, st, a[1]), str(ex, st, a[0])))
		},
		"strings.HasSuffix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.SuffixOf(str(ex, st, a[1]), str(ex, st, a[0])))
		},
		"strings.Contains": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			x, y := str(ex, st, a[0]), str(ex, st, a[1])
			if x.op == "str" && y.op == "str" {
				return one(st, ex.c.Bool(strings.Contains(x.sval, y.sval)))
			}
			return one(st, ex.c.op("str.contains", SBool, x, y))
		},
		"strings.Index": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			x, y := str(ex, st, a[0]), str(ex, st, a[1])
			if x.op == "str" && y.op == "str" {
				return one(st, ex.c.Int(int64(strings.Index(x.sval, y.sval))))
			}
			return one(st, ex.c.op("str.indexof", SInt, x, y, ex.c.Int(0)))
		},
		"strings.CutPrefix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			x, y := str(ex, st, a[0]), str(ex, st, a[1])
			return []Outcome{{st: st, rets: []Val{ex.c.TrimPrefix(x, y), ex.c.PrefixOf(y, x)}}}
		},
		"strings.CutSuffix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			x, y := str(ex, st, a[0]), str(ex, st, a[1])
			return []Outcome{{st: st, rets: []Val{ex.c.TrimSuffix(x, y), ex.c.SuffixOf(y, x)}}}
		},
		"strings.Replace": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			x, y, z, n := str(ex, st, a[0]), str(ex, st, a[1]), str(ex, st, a[2]), str(ex, st, a[3])
			if x.op == "str" && y.op == "str" && z.op == "str" && n.op == "int" {
				return one(st, ex.c.Str(strings.Replace(x.sval, y.sval, z.sval, int(n.ival.Int64()))))
			}
			if n.op == "int" && n.ival.Int64() == 1 {
				return one(st, ex.c.op("str.replace", SStr, x, y, z))
			}
			return one(st, ex.c.App("strings.Replace", SStr, x, y, z, n))
		},
		// sorting rearranges the elements: every element then is one before, and
		// every element before is one then
		"sort.Sort": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, true)
		},
		"sort.Stable": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, true)
		},
		"sort.Slice": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, false)
		},
		"sort.SliceStable": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, false)
		},
		"sort.Strings": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, false)
		},
		"slices.Sort": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, false)
		},
		"slices.SortFunc": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, false)
		},
		"slices.SortStableFunc": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.sortIntrinsic(fr, st, ci, false)
		},
		"strings.Split": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			x, y := str(ex, st, a[0]), str(ex, st, a[1])
			if x.op == "str" && y.op == "str" {
				var ts []*Term
				for _, p := range strings.Split(x.sval, y.sval) {
					ts = append(ts, ex.c.Str(p))
				}
				return one(st, ex.mkSlice(st, types.Typ[types.String], ts))
			}
			sq := ex.c.App("strings.Split", SSeq(SStr), x, y)
			if y.op == "str" && y.sval != "" {
				st.assume(ex.c, ex.c.Le(ex.c.Int(1), ex.c.SeqLen(sq)))
			}
			return one(st, ex.newSlice(st, sq))
		},
		"strings.Join": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			s, sep := str(ex, st, a[0]), str(ex, st, a[1])
			if ts, ok := ex.sliceTerms(st, s, SStr); ok {
				var ps []*Term
				for i, t := range ts {
					if i > 0 {
						ps = append(ps, sep)
					}
					ps = append(ps, t)
				}
				return one(st, ex.c.Concat(ps...))
			}
			return one(st, ex.c.App("strings.Join", SStr, ex.seqOfSlice(st, s, SStr), sep))
		},
		"strconv.Itoa": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.itoa(str(ex, st, a[0])))
		},
		"strconv.Quote": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.quote(str(ex, st, a[0])))
		},
		"fmt.Sprintf": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ts, ok := ex.variadic(st, a[1])
			return one(st, ex.sprintf(fr, st, str(ex, st, a[0]), ts, ok))
		},
		"fmt.Sprint": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ts, ok := ex.variadic(st, a[0])
			if ok && len(ts) == 1 {
				return one(st, ex.formatArg(fr, st, 'v', ts[0]))
			}
			return one(st, ex.c.App(fmt.Sprintf("fmt.Sprint%d", len(ts)), SStr, ts...))
		},
		"fmt.Errorf": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			e := ex.c.Fresh("errorf", SIface)
			st.assume(ex.c, ex.c.Not(ex.c.Eq(e, ex.c.INil())))
			return one(st, e)
		},
		"fmt.Fprintln": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ts, _ := ex.variadic(st, a[1])
			var ps []*Term
			for i, t := range ts {
				if i > 0 {
					ps = append(ps, ex.c.Str(" "))
				}
				if t.sort == SIface {
					ps = append(ps, ex.formatArg(fr, st, 'v', t))
				}
			}
			ps = append(ps, ex.c.Str("\n"))
			return ex.fprint(fr, st, str(ex, st, a[0]), ex.c.Concat(ps...), ci)
		},
		"fmt.Fprintf": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ts, ok := ex.variadic(st, a[2])
			return ex.fprint(fr, st, str(ex, st, a[0]), ex.sprintf(fr, st, str(ex, st, a[1]), ts, ok), ci)
		},
		"fmt.Fprint": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ts, _ := ex.variadic(st, a[1])
			var ps []*Term
			for _, t := range ts {
				if t.sort == SIface {
					ps = append(ps, ex.formatArg(fr, st, 'v', t))
				}
			}
			return ex.fprint(fr, st, str(ex, st, a[0]), ex.c.Concat(ps...), ci)
		},
		"io.WriteString": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.fprint(fr, st, str(ex, st, a[0]), str(ex, st, a[1]), ci)
		},
		"fmt.Println": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
		"fmt.Printf": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
		// ---- http
		"http.ResponseWriter.Header": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			w := str(ex, st, a[0])
			h := ex.c.App("headerOf", SInt, w)
			if w.old {
				h.old = true
			}
			if !h.bound {
				st.assume(ex.c, ex.c.Not(ex.c.Eq(h, ex.c.Int(0))))
				st.assume(ex.c, ex.c.Le(h, ex.c.Sym("ALLOC0", SInt)))
			}
			return one(st, h)
		},
		"http.ResponseWriter.Write": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.writeEvent(fr, st, str(ex, st, a[0]), ex.bytesToStr(st, str(ex, st, a[1])), ci)
		},
		"io.Writer.Write": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.writeEvent(fr, st, str(ex, st, a[0]), ex.bytesToStr(st, str(ex, st, a[1])), ci)
		},
		"http.ResponseWriter.WriteHeader": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			w := str(ex, st, a[0])
			hs := SArr(SIface, SInt)
			h := ex.H(st, "GH:status", hs)
			cur := ex.c.Select(h, w)
			ex.setH(st, "GH:status", ex.c.Store(h, w, ex.c.Ite(ex.c.Eq(cur, ex.c.Int(0)), str(ex, st, a[1]), cur)))
			return []Outcome{{st: st}}
		},
		"textproto.CanonicalMIMEHeaderKey": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, canonHeader(ex, str(ex, st, a[0])))
		},
		"http.CanonicalHeaderKey": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, canonHeader(ex, str(ex, st, a[0])))
		},
		"http.Header.Clone": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			c := ex.c
			m := str(ex, st, a[0])
			mt := ci.sig.Results().At(0).Type().Underlying().(*types.Map)
			ref := ex.newRef(st)
			ks, dk := ex.mapKeys(mt)
			s := SArr(SInt, SArr(ks, SBool))
			ex.storeH(st, dk, s, ref, c.Select(ex.H(st, dk, s), m))
			for _, l := range leavesOf(mt.Elem()) {
				hk := "MV:" + string(ks) + ":" + typeKey(mt.Elem()) + l.path
				s := SArr(SInt, SArr(ks, l.sort))
				ex.storeH(st, hk, s, ref, c.Select(ex.H(st, hk, s), m))
			}
			return one(st, c.Ite(c.Eq(m, c.Int(0)), c.Int(0), ref))
		},
		"http.NewRequestWithContext": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			c := ex.c
			bad := st.clone()
			e := c.Fresh("newRequestErr", SIface)
			bad.assume(c, c.Not(c.Eq(e, c.INil())))
			if !st.assume(c, c.Not(c.Eq(str(ex, st, a[0]), c.INil()))) {
				return []Outcome{{st: bad, rets: []Val{c.Int(0), e}}}
			}
			T := ci.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			s, _ := isStruct(T)
			ref := ex.newRef(st)
			url := ex.newRef(st)
			for i := 0; i < s.NumFields(); i++ {
				l := ex.fieldLoc(T, s, i, ref)
				switch s.Field(i).Name() {
				case "Method":
					m := str(ex, st, a[1])
					ex.store(st, l, c.Ite(c.Eq(m, c.Str("")), c.Str("GET"), m))
				case "ctx":
					ex.store(st, l, a[0])
				case "URL":
					ex.store(st, l, url)
					ex.ghostSet(st, "url", SStr, url, str(ex, st, a[2]))
				case "Header":
					ex.store(st, l, ex.newRef(st))
				case "Body":
					ex.ghostSet(st, "reqbody", SIface, ref, str(ex, st, a[3]))
					ex.store(st, l, c.Fresh("body", SIface))
				case "ContentLength":
					ex.store(st, l, c.Fresh("contentLength", SInt))
				}
			}
			return []Outcome{{st: st, rets: []Val{ref, c.INil()}}, {st: bad, rets: []Val{c.Int(0), e}}}
		},
		"http.Client.Do": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			c := ex.c
			rets := ex.freshRets(st, ci)
			resp, err := ex.term(st, rets[0]), ex.term(st, rets[1])
			bad := st.clone()
			bad.assume(c, c.Not(c.Eq(err, c.INil())))
			st.assume(c, c.Not(c.Eq(resp, c.Int(0))))
			ok := st
			T := ci.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			s, _ := isStruct(T)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Body" {
					b := ex.load(ok, ex.fieldLoc(T, s, i, resp))
					ok.assume(c, c.Not(c.Eq(ex.term(ok, b), c.INil())))
				}
			}
			return []Outcome{{st: ok, rets: []Val{resp, c.INil()}}, {st: bad, rets: []Val{c.Int(0), err}}}
		},
		// ---- prometheus: metrics do not touch the program's own objects
		"prometheus.Observer.Observe": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return []Outcome{{st: st}}
		},
		"io.Closer.Close": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
		"io.Copy": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.drain(fr, st, str(ex, st, a[0]), str(ex, st, a[1]), ci)
		},
		"bytes.Buffer.ReadFrom": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return ex.drain(fr, st, ex.term(st, ex.makeIface(st, a[0], ci.argT[0])), str(ex, st, a[1]), ci)
		},
		"io.ReadAll": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			var out []Outcome
			for _, o := range ex.readAll(fr, st, str(ex, st, a[0])) {
				data, err := ex.term(o.st, o.rets[0]), ex.term(o.st, o.rets[1])
				o.rets = []Val{ex.strToBytes(o.st, data), err}
				out = append(out, o)
			}
			return out
		},
		// ---- bytes.Buffer
		"bytes.Buffer.Len": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.Len(ex.bufContent(st, str(ex, st, a[0]))))
		},
		"bytes.Buffer.String": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.bufContent(st, str(ex, st, a[0])))
		},
		"bytes.Buffer.Bytes": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.strToBytes(st, ex.bufContent(st, str(ex, st, a[0]))))
		},
		"bytes.Buffer.Write": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			d := ex.bytesToStr(st, str(ex, st, a[1]))
			ex.bufAppend(st, str(ex, st, a[0]), d)
			return []Outcome{{st: st, rets: []Val{ex.c.Len(d), ex.c.INil()}}}
		},
		"bytes.Buffer.WriteString": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			d := str(ex, st, a[1])
			ex.bufAppend(st, str(ex, st, a[0]), d)
			return []Outcome{{st: st, rets: []Val{ex.c.Len(d), ex.c.INil()}}}
		},
		"bytes.Buffer.Reset": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ex.ghostSet(st, "buf", SStr, str(ex, st, a[0]), ex.c.Str(""))
			return []Outcome{{st: st}}
		},
		"bytes.NewBuffer": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ref := ex.newRef(st)
			ex.ghostSet(st, "buf", SStr, ref, ex.bytesToStr(st, str(ex, st, a[0])))
			return one(st, ref)
		},
		"bytes.NewBufferString": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ref := ex.newRef(st)
			ex.ghostSet(st, "buf", SStr, ref, str(ex, st, a[0]))
			return one(st, ref)
		},
		// ---- codec
		"codec.NewEncoder": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ref := ex.newRef(st)
			ex.ghostSet(st, "codec.w", SIface, ref, str(ex, st, a[0]))
			ex.ghostSet(st, "codec.h", SIface, ref, str(ex, st, a[1]))
			return one(st, ref)
		},
		"codec.NewDecoder": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ref := ex.newRef(st)
			ex.ghostSet(st, "codec.w", SIface, ref, str(ex, st, a[0]))
			ex.ghostSet(st, "codec.h", SIface, ref, str(ex, st, a[1]))
			return one(st, ref)
		},
		// registering an extension: fails or not depending on its arguments
		// only; afterwards the extension is registered for the type
		"codec.JsonHandle.SetInterfaceExt": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			rt, tag, ext := str(ex, st, a[1]), str(ex, st, a[2]), str(ex, st, a[3])
			err := ex.c.App("ext.result", SIface, rt, tag, ext)
			st.assume(ex.c, ex.c.Implies(ex.c.Eq(err, ex.c.INil()), ex.c.App("ext.registered", SBool, rt, ext)))
			return one(st, err)
		},
		"codec.NewDecoderBytes": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ref := ex.newRef(st)
			buf := ex.newRef(st)
			ex.ghostSet(st, "buf", SStr, buf, ex.bytesToStr(st, str(ex, st, a[0])))
			ex.ghostSet(st, "codec.w", SIface, ref, ex.c.IRef(ex.c.Int(ex.eng.tags.Of(ex.eng.bufferType())), buf))
			ex.ghostSet(st, "codec.h", SIface, ref, str(ex, st, a[1]))
			return one(st, ref)
		},
		"codec.Encoder.Encode": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			c := ex.c
			enc, v := str(ex, st, a[0]), str(ex, st, a[1])
			w, h := ex.ghostGet(st, "codec.w", SIface, enc), ex.ghostGet(st, "codec.h", SIface, enc)
			any := types.NewInterfaceType(nil, nil)
			res := types.NewTuple(ci.sig.Results().At(0), types.NewParam(0, nil, "data", types.Typ[types.String]))
			e2 := &callInfo{name: "codec.Encode", sig: types.NewSignatureType(nil, nil, nil, nil, res, false), argT: []types.Type{any, any, any}}
			all := ex.withEvent(fr, st, e2, []Val{v, h, w}, func(s *State) []Outcome {
				data := c.Fresh("encoded", SStr)
				bad := s.clone()
				err := c.Fresh("encodeErr", SIface)
				bad.assume(c, c.Not(c.Eq(err, c.INil())))
				// what a failed encoder has flushed is unspecified
				part := c.Fresh("partial", SStr)
				ex.write(fr, bad, w, part, ci)
				s.assume(c, c.Not(c.Eq(data, c.Str(""))))
				var outs []Outcome
				if t, ok := ex.knownTag(s, w); ok && t != 0 && types.TypeString(ex.eng.tags.Type(t), nil) == "*bytes.Buffer" {
					ex.write(fr, s, w, data, ci)
					outs = []Outcome{{st: s, rets: []Val{c.INil(), data}}}
				} else {
					for _, o := range ex.writeEvent(fr, s, w, data, ci) {
						outs = append(outs, Outcome{st: o.st, rets: []Val{c.INil(), data}})
					}
				}
				return append(outs, Outcome{st: bad, rets: []Val{err, part}})
			})
			for i := range all {
				if len(all[i].rets) == 2 {
					all[i].rets = all[i].rets[:1]
				}
			}
			return all
		},
		"codec.Decoder.Decode": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			c := ex.c
			dec, v := str(ex, st, a[0]), str(ex, st, a[1])
			w, h := ex.ghostGet(st, "codec.w", SIface, dec), ex.ghostGet(st, "codec.h", SIface, dec)
			any := types.NewInterfaceType(nil, nil)
			e2 := &callInfo{name: "codec.Decode", sig: ci.sig, argT: []types.Type{any, any, any, types.Typ[types.String]}}
			// the text it reads
			text := c.App("contentOf", SStr, w)
			if n, ok := ex.knownTag(st, w); ok && n != 0 && types.TypeString(ex.eng.tags.Type(n), nil) == "*bytes.Buffer" {
				text = ex.bufContent(st, c.Sel("iref.ref", w))
			}
			return ex.withEvent(fr, st, e2, []Val{v, h, w, text}, func(s *State) []Outcome {
				ex.havocValue(s, v, 3)
				bad := s.clone()
				err := c.Fresh("decodeErr", SIface)
				bad.assume(c, c.Not(c.Eq(err, c.INil())))
				return []Outcome{{st: s, rets: []Val{c.INil()}}, {st: bad, rets: []Val{err}}}
			})
		},
		// ---- context
		"context.WithValue": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			r := ex.c.App("ctx.with", SIface, str(ex, st, a[0]), str(ex, st, a[1]), str(ex, st, a[2]))
			st.assume(ex.c, ex.c.Not(ex.c.Eq(r, ex.c.INil())))
			return one(st, r)
		},
		"context.Background": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			r := ex.c.App("ctx.background", SIface)
			st.assume(ex.c, ex.c.Not(ex.c.Eq(r, ex.c.INil())))
			return one(st, r)
		},
		"context.Context.Value": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			c := ex.c
			key := str(ex, st, a[1])
			var get func(t *Term) *Term
			get = func(t *Term) *Term {
				if t.op == "app" && t.sval == "ctx.with" {
					return c.Ite(c.Eq(t.args[1], key), t.args[2], get(t.args[0]))
				}
				if t.op == "ite" {
					return c.Ite(t.args[0], get(t.args[1]), get(t.args[2]))
				}
				return c.App("ctx.value", SIface, t, key)
			}
			return one(st, get(str(ex, st, a[0])))
		},
		// ---- reflect
		"reflect.TypeOf": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.rtype(ex.c.TagOf(str(ex, st, a[0]))))
		},
		"reflect.Type.String": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.typeString(ex.rtag(str(ex, st, a[0]))))
		},
		"reflect.Type.PkgPath": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.typePkg(ex.rtag(str(ex, st, a[0]))))
		},
		"reflect.Type.Kind": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.kindOf(st, ex.rtag(str(ex, st, a[0]))))
		},
		"reflect.Type.Elem": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.rtype(ex.tagElem(ex.rtag(str(ex, st, a[0])))))
		},
		"reflect.Type.Implements": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.rImplements(st, ex.rtag(str(ex, st, a[0])), str(ex, st, a[1])))
		},
		"reflect.ValueOf": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			T := ci.sig.Results().At(0).Type()
			return one(st, &StructV{typ: T, f: []Val{str(ex, st, a[0]), ex.c.Int(0), ex.c.Int(0)}})
		},
		"reflect.Value.IsZero": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.isZero(st, ex.rval(st, a[0])))
		},
		"reflect.Value.IsNil": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.isZero(st, ex.rval(st, a[0])))
		},
		"reflect.Value.IsValid": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.Not(ex.c.Eq(ex.rval(st, a[0]), ex.c.INil())))
		},
		"reflect.Value.Kind": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.kindOf(st, ex.c.TagOf(ex.rval(st, a[0]))))
		},
		"reflect.Value.Type": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.rtype(ex.c.TagOf(ex.rval(st, a[0]))))
		},
		"reflect.Value.Interface": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.rval(st, a[0]))
		},
		"reflect.Value.NumField": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			n := ex.c.App("refl.nfields", SInt, ex.c.TagOf(ex.rval(st, a[0])))
			st.assume(ex.c, ex.c.Le(ex.c.Int(0), n))
			return one(st, n)
		},
		"reflect.Value.Field": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			T := ci.sig.Results().At(0).Type()
			f := ex.c.App("refl.field", SIface, ex.rval(st, a[0]), str(ex, st, a[1]))
			return one(st, &StructV{typ: T, f: []Val{f, ex.c.Int(0), ex.c.Int(0)}})
		},
		"reflect.Value.Elem": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			T := ci.sig.Results().At(0).Type()
			f := ex.c.App("refl.elem", SIface, ex.rval(st, a[0]))
			return one(st, &StructV{typ: T, f: []Val{f, ex.c.Int(0), ex.c.Int(0)}})
		},
		"reflect.Indirect": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			T := ci.sig.Results().At(0).Type()
			x := ex.rval(st, a[0])
			f := ex.c.Ite(ex.c.Eq(ex.kindOf(st, ex.c.TagOf(x)), ex.c.Int(int64(reflect.Ptr))), ex.c.App("refl.elem", SIface, x), x)
			return one(st, &StructV{typ: T, f: []Val{f, ex.c.Int(0), ex.c.Int(0)}})
		},
		// ---- time
		"time.Unix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			n := ex.c.Add(ex.c.Mul(str(ex, st, a[0]), ex.c.Int(1000000000)), str(ex, st, a[1]))
			return one(st, ex.timeVal(n, ci.sig.Results().At(0).Type()))
		},
		"time.UnixMilli": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.timeVal(ex.c.Mul(str(ex, st, a[0]), ex.c.Int(1000000)), ci.sig.Results().At(0).Type()))
		},
		"time.UnixMicro": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.timeVal(ex.c.Mul(str(ex, st, a[0]), ex.c.Int(1000)), ci.sig.Results().At(0).Type()))
		},
		"time.Time.UnixMilli": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.wrap(st, floorDiv(ex.c, ex.timeNanos(st, a[0]), 1000000), types.Typ[types.Int64]))
		},
		"time.Time.Unix": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.wrap(st, floorDiv(ex.c, ex.timeNanos(st, a[0]), 1000000000), types.Typ[types.Int64]))
		},
		"time.Time.UnixNano": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.wrap(st, ex.timeNanos(st, a[0]), types.Typ[types.Int64]))
		},
		"time.Time.UnixMicro": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.wrap(st, floorDiv(ex.c, ex.timeNanos(st, a[0]), 1000), types.Typ[types.Int64]))
		},
		"time.Time.Nanosecond": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.op("mod", SInt, ex.timeNanos(st, a[0]), ex.c.Int(1000000000)))
		},
		"time.Now": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
		"time.Since": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
		// ---- errors
		"errors.callers": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.newRef(st))
		},
		"errors.Is": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.App("errors.Is", SBool, str(ex, st, a[0]), str(ex, st, a[1])))
		},
		"mapstructure.Decode": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ex.havocValue(st, str(ex, st, a[1]), 3)
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
		"yaml.v2.Unmarshal": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			ex.havocReach(st, a[1], ci.argT[1], 2)
			ex.distinctPointers(st, str(ex, st, a[1]))
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
		"filepath.Abs": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			rets := ex.freshRets(st, ci)
			rets[0] = ex.c.App("filepath.Abs", SStr, str(ex, st, a[0]))
			return []Outcome{{st: st, rets: rets}}
		},
		"filepath.Rel": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			rets := ex.freshRets(st, ci)
			x, y := str(ex, st, a[0]), str(ex, st, a[1])
			rets[0] = ex.c.App("filepath.Rel", SStr, x, y)
			rets[1] = ex.c.App("filepath.Rel#err", SIface, x, y)
			return []Outcome{{st: st, rets: rets}}
		},
		"path.IsAbs": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.PrefixOf(ex.c.Str("/"), str(ex, st, a[0])))
		},
		"filepath.IsAbs": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.PrefixOf(ex.c.Str("/"), str(ex, st, a[0])))
		},
		"reflect.StructTag.Get": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return one(st, ex.c.App("StructTag.Get", SStr, str(ex, st, a[0]), str(ex, st, a[1])))
		},
		"reflect.StructTag.Lookup": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			t, k := str(ex, st, a[0]), str(ex, st, a[1])
			v, ok := ex.c.App("StructTag.Get", SStr, t, k), ex.c.App("StructTag.Has", SBool, t, k)
			st.assume(ex.c, ex.c.Or(ok, ex.c.Eq(v, ex.c.Str(""))))
			return []Outcome{{st: st, rets: []Val{v, ok}}}
		},
		"types.Scope.Lookup": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			// only ever asked of types.Universe
			c := ex.c
			n := str(ex, st, a[1])
			c.facts["predeclared"] = func(t *Term) []*Term {
				var ts []*Term
				for _, x := range types.Universe.Names() {
					ts = append(ts, c.Eq(t.args[0], c.Str(x)))
				}
				return []*Term{c.Eq(t, c.Or(ts...))}
			}
			obj := c.App("types.Object", SIface, n)
			st.assume(c, c.Not(c.Eq(obj, c.INil())))
			p := c.App("predeclared", SBool, n)
			if n.op == "str" {
				p = c.Bool(types.Universe.Lookup(n.sval) != nil)
			}
			return one(st, c.Ite(p, obj, c.INil()))
		},
		"json.Marshal": func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
		},
	}
	keep := func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
		// same instant, other location
		n := ex.timeNanos(st, a[0])
		return one(st, ex.timeVal(n, ci.sig.Results().At(0).Type()))
	}
	intrinsics["time.Time.Local"] = keep
	intrinsics["time.Time.UTC"] = keep
	intrinsics["time.Time.In"] = keep
	for name, f := range map[string]interface{}{
		"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.TrimSpace": strings.TrimSpace,
		"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.ReplaceAll": strings.ReplaceAll, "strings.Title": strings.Title, "strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.IndexByte": strings.IndexByte,
		"strings.Repeat": strings.Repeat, "strings.EqualFold": strings.EqualFold, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny, "strings.Count": strings.Count, "strings.Cut": strings.Cut,
		"path.Base": path.Base, "path.Dir": path.Dir, "path.Clean": path.Clean, "path.Ext": path.Ext,
		"filepath.Base": filepath.Base, "filepath.Dir": filepath.Dir, "filepath.Clean": filepath.Clean, "filepath.Ext": filepath.Ext,
		"strconv.Atoi": nil, "strconv.Unquote": nil,
		"token.IsExported": token.IsExported, "ast.IsExported": token.IsExported, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber, "unicode.IsSpace": unicode.IsSpace, "unicode.IsPunct": unicode.IsPunct, "unicode.IsLower": unicode.IsLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
	} {
		if f == nil {
			f = func() {}
		}
		intrinsics[name] = pureFn(name, f)
	}
	intrinsics["ast.IsExported"] = intrinsics["token.IsExported"]
	for _, n := range []string{"path.Join", "filepath.Join"} {
		n := n
		intrinsics[n] = func(ex *Exec, fr *Frame, st *State, a []Val, ci *callInfo) []Outcome {
			s := str(ex, st, a[0])
			ts, ok := ex.sliceTerms(st, s, SStr)
			if !ok {
				return one(st, ex.c.App(n+"*", SStr, ex.seqOfSlice(st, s, SStr)))
			}
			all := true
			var ss []string
			for _, t := range ts {
				if t.op != "str" {
					all = false
				}
				ss = append(ss, t.sval)
			}
			if all {
				return one(st, ex.c.Str(path.Join(ss...)))
			}
			return one(st, ex.c.App(fmt.Sprintf("%s%d", n, len(ts)), SStr, ts...))
		}
	}
}

func (ex *Exec) fprint(fr *Frame, st *State, w, data *Term, ci *callInfo) []Outcome {
	// os.Stderr / os.Stdout diagnostics are not observed
	if t, ok := ex.knownTag(st, w); ok && t != 0 && types.TypeString(ex.eng.tags.Type(t), nil) == "*os.File" {
		return []Outcome{{st: st, rets: ex.freshRets(st, ci)}}
	}
	return ex.writeEvent(fr, st, w, data, ci)
}

// ---- reflect.Type values ------------------------------------------------------

func (ex *Exec) rtype(tag *Term) *Term {
	c := ex.c
	if tag.op == "int" && tag.ival.Sign() == 0 {
		return c.INil()
	}
	if tag.op == "ite" {
		return c.Ite(tag.args[0], ex.rtype(tag.args[1]), ex.rtype(tag.args[2]))
	}
	v := c.IRef(c.Int(ex.eng.rtypeTag()), c.App("rt", SInt, tag))
	if tag.op == "int" {
		return v
	}
	return c.Ite(c.Eq(tag, c.Int(0)), c.INil(), v)
}

// rtypeTag: the dynamic type of reflect.Type values.
func (e *Engine) rtypeTag() int64 {
	if p := e.pkgs["reflect"]; p != nil {
		if o := p.Types.Scope().Lookup("rtype"); o != nil {
			return e.tags.Of(types.NewPointer(o.Type()))
		}
	}
	return e.tags.Of(types.NewPointer(types.NewStruct(nil, nil)))
}

func (ex *Exec) rtag(t *Term) *Term {
	c := ex.c
	if t.op == "ite" {
		return c.Ite(t.args[0], ex.rtag(t.args[1]), ex.rtag(t.args[2]))
	}
	if t.op == "inil" {
		return c.Int(0)
	}
	if t.op == "iref" && t.args[1].op == "app" && t.args[1].sval == "rt" {
		return t.args[1].args[0]
	}
	return c.App("unrt", SInt, t)
}

func (ex *Exec) kindOf(st *State, tag *Term) *Term {
	c := ex.c
	if tag.op == "ite" {
		return c.Ite(tag.args[0], ex.kindOf(st, tag.args[1]), ex.kindOf(st, tag.args[2]))
	}
	if tag.op == "int" {
		n := tag.ival.Int64()
		if n == 0 {
			return c.Int(0)
		}
		return c.Int(int64(kindOfType(ex.eng.tags.Type(n))))
	}
	k := c.App("kind", SInt, tag)
	st.assume(c, c.Le(c.Int(0), k))
	st.assume(c, c.Le(k, c.Int(26)))
	return k
}

func kindOfType(T types.Type) reflect.Kind {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.String: reflect.String, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128}
		return m[u.Kind()]
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (ex *Exec) tagElem(tag *Term) *Term {
	c := ex.c
	if tag.op == "ite" {
		return c.Ite(tag.args[0], ex.tagElem(tag.args[1]), ex.tagElem(tag.args[2]))
	}
	if tag.op == "int" && tag.ival.Int64() != 0 {
		switch u := ex.eng.tags.Type(tag.ival.Int64()).Underlying().(type) {
		case *types.Pointer:
			return c.Int(ex.eng.tags.Of(u.Elem()))
		case *types.Slice:
			return c.Int(ex.eng.tags.Of(u.Elem()))
		case *types.Array:
			return c.Int(ex.eng.tags.Of(u.Elem()))
		case *types.Map:
			return c.Int(ex.eng.tags.Of(u.Elem()))
		}
	}
	return c.App("tagElem", SInt, tag)
}

func (ex *Exec) rImplements(st *State, tag *Term, ity *Term) *Term {
	c := ex.c
	if it := ex.rtag(ity); it.op == "int" {
		n := it.ival.Int64()
		if T := ex.eng.tags.Type(n); n != 0 && T != nil {
			if i, ok := T.Underlying().(*types.Interface); ok {
				return ex.implTag(tag, nil, T, i, c)
			}
		}
	}
	// errorType-like globals initialised once: the interface type is unknown here
	return c.App("refl.implements", SBool, tag, ity)
}

func (ex *Exec) rval(st *State, v Val) *Term {
	sv, ok := v.(*StructV)
	if !ok {
		unsup("reflect.Value %T", v)
	}
	t := ex.term(st, sv.f[0])
	if t.sort != SIface {
		unsup("reflect.Value of unknown origin")
	}
	return t
}

func (ex *Exec) isZero(st *State, x *Term) *Term {
	c := ex.c
	if x.op == "ite" {
		return c.Ite(x.args[0], ex.isZero(st, x.args[1]), ex.isZero(st, x.args[2]))
	}
	if n, ok := ex.knownTag(st, x); ok && n != 0 {
		T := ex.eng.tags.Type(n)
		if s, ok := sortOf(T); ok {
			v := ex.term(st, ex.unIface(st, x, T))
			if s == SSlice {
				return c.Eq(c.Sel("sl.arr", v), c.Int(0))
			}
			return c.Eq(v, c.Zero(s))
		}
		if _, ok := isStruct(T); ok {
			v := ex.unIface(st, x, T)
			z := ex.zeroVal(T)
			return ex.eqZero(st, v, z)
		}
	}
	return c.App("refl.iszero", SBool, x)
}

func (ex *Exec) eqZero(st *State, v, z Val) *Term {
	c := ex.c
	if sv, ok := v.(*StructV); ok {
		var es []*Term
		for i := range sv.f {
			es = append(es, ex.eqZero(st, sv.f[i], z.(*StructV).f[i]))
		}
		return c.And(es...)
	}
	t := ex.term(st, v)
	if t.sort == SSlice {
		return c.Eq(c.Sel("sl.arr", t), c.Int(0))
	}
	return c.Eq(t, ex.term(st, z))
}

// havocValue: whatever the dynamic value x refers to becomes arbitrary
// (decoding into it).
func (ex *Exec) havocValue(st *State, x *Term, depth int) {
	c := ex.c
	if depth == 0 {
		return
	}
	if x.op == "ite" {
		ex.havocValue(st, x.args[1], depth)
		ex.havocValue(st, x.args[2], depth)
		return
	}
	n, ok := ex.knownTag(st, x)
	if !ok {
		ex.note(&ex.assumed, "decoding into a value of unknown type leaves the objects tracked here unchanged")
		if ex.wr != nil {
			ex.wr.reach = append(ex.wr.reach, x)
		}
		return
	}
	if n == 0 {
		return
	}
	T := ex.eng.tags.Type(n)
	v := ex.unIface(st, x, T)
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
			if _, isI := sl.Elem().Underlying().(*types.Interface); isI {
				s := ex.term(st, ex.load(st, ex.locOf(v, u.Elem())))
				if ts, ok := ex.sliceTerms(st, s, SIface); ok {
					for _, t := range ts {
						ex.havocValue(st, t, depth-1)
					}
					return
				}
			}
		}
		l := ex.locOf(v, u.Elem())
		ex.store(st, l, ex.freshVal(st, "decoded", u.Elem(), false))
	case *types.Slice:
		if _, isI := u.Elem().Underlying().(*types.Interface); isI {
			s := ex.term(st, v)
			if ts, ok := ex.sliceTerms(st, s, SIface); ok {
				for _, t := range ts {
					ex.havocValue(st, t, depth-1)
				}
				return
			}
		}
		s := ex.term(st, v)
		es, ok := sortOf(u.Elem())
		if !ok {
			return
		}
		ex.storeH(st, elemKey(u.Elem()), SArr(SInt, SArr(SInt, es)), c.Sel("sl.arr", s), c.Fresh("decoded", SArr(SInt, es)))
	case *types.Map:
		ex.note(&ex.assumed, "decoding into a map is not tracked")
	}
}

func registerAxioms(ex *Exec) {
	c := ex.c
	c.facts["rt"] = func(t *Term) []*Term {
		return []*Term{c.Eq(c.App("untag", SInt, t), t.args[0])}
	}
	c.facts["trimsuf"] = func(t *Term) []*Term {
		has := c.op("str.suffixof", SBool, t.args[1], t.args[0])
		return []*Term{c.Implies(has, c.Eq(t.args[0], c.Concat(t, t.args[1]))), c.Or(has, c.Eq(t, t.args[0]))}
	}
	c.facts["trimpre"] = func(t *Term) []*Term {
		has := c.op("str.prefixof", SBool, t.args[1], t.args[0])
		return []*Term{c.Implies(has, c.Eq(t.args[0], c.Concat(t.args[1], t))), c.Or(has, c.Eq(t, t.args[0]))}
	}
	c.facts["seqarr"] = func(t *Term) []*Term {
		s := t.args[0]
		i := c.BV("i", SInt)
		sel := c.op("select", seqElem(s.sort), t, i)
		return []*Term{c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.SeqLen(s))), c.Eq(sel, c.SeqNth(s, i))), sel)}
	}
	c.facts["ctx.with"] = func(t *Term) []*Term { return []*Term{c.Not(c.Eq(t, c.INil()))} }
	c.facts["strof"] = func(t *Term) []*Term {
		if a := t.args[0]; a.op == "app" && a.sval == "bytesarr" {
			if t.args[1].op == "int" && t.args[1].ival.Sign() == 0 {
				return []*Term{c.Implies(c.Eq(t.args[2], c.Len(a.args[0])), c.Eq(t, a.args[0]))}
			}
		}
		return nil
	}
	c.facts["strings.Join"] = func(t *Term) []*Term {
		out := []*Term{c.Implies(c.Eq(c.SeqLen(t.args[0]), c.Int(0)), c.Eq(t, c.Str("")))}
		if sep := t.args[1]; sep.op == "str" && sep.sval == "\n" {
			out = append(out, c.Implies(c.Lt(c.Int(0), c.SeqLen(t.args[0])), c.Eq(c.Lines(t.args[0]), c.Concat(t, sep))))
		}
		return out
	}
	c.facts["Lines"] = func(t *Term) []*Term {
		return []*Term{c.Implies(c.Eq(c.SeqLen(t.args[0]), c.Int(0)), c.Eq(t, c.Str("")))}
	}
	c.facts["SQ"] = func(t *Term) []*Term {
		return []*Term{c.Eq(c.op("seq.len", SInt, t), c.Ite(c.Le(c.Int(0), t.args[2]), t.args[2], c.Int(0)))}
	}
}

// distinctPointers: a decoder puts a new object behind every pointer of the
// maps of the value v points to.
func (ex *Exec) distinctPointers(st *State, v *Term) {
	c := ex.c
	n, ok := ex.knownTag(st, v)
	if !ok || n == 0 {
		return
	}
	pt, ok := ex.eng.tags.Type(n).Underlying().(*types.Pointer)
	if !ok {
		return
	}
	s, ok := isStruct(pt.Elem())
	if !ok {
		return
	}
	ref := ex.locRef(ex.locOf(ex.unIface(st, v, pt), pt.Elem()))
	for i := 0; i < s.NumFields(); i++ {
		mt, ok := s.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		if _, ok := mt.Elem().Underlying().(*types.Pointer); !ok {
			continue
		}
		m := ex.term(st, ex.load(st, ex.fieldLoc(pt.Elem(), s, i, ref)))
		ks := mustSort(mt.Key())
		a, b := c.BV("a", ks), c.BV("b", ks)
		va, oka := ex.mapGet(st, mt, m, a)
		vb, okb := ex.mapGet(st, mt, m, b)
		ta, tb := va.(*Term), vb.(*Term)
		st.assume(c, c.Forall([]*Term{a, b}, c.Or(c.Not(oka), c.Not(okb), c.Eq(a, b), c.Not(c.Eq(ta, tb)), c.Eq(ta, c.Int(0)))))
	}
	ex.note(&ex.assumed, "yaml.Unmarshal puts a new object behind every pointer it decodes")
}

// sortIntrinsic models the sorting functions of package sort by what any
// sequence of swaps does. The swapping of sort.Interface is the program's own:
// it must be under contract (its contract is discharged apart).
func (ex *Exec) sortIntrinsic(fr *Frame, st *State, ci *callInfo, iface bool) []Outcome {
	call, ok := ci.site.(ssa.CallInstruction)
	if !ok {
		unsup("sorting by a deferred call")
	}
	x := call.Common().Args[0]
	if mi, ok := x.(*ssa.MakeInterface); ok {
		x = mi.X
	}
	if ct, ok := x.(*ssa.ChangeType); ok && !iface {
		x = ct.X
	}
	sl, ok := x.Type().Underlying().(*types.Slice)
	if !ok {
		unsup("sorting of %s", x.Type())
	}
	if iface {
		has := false
		for _, T := range ex.eng.contractedImpls("Swap") {
			has = has || types.Identical(T, x.Type())
		}
		if !has {
			unsup("sorting of %s, whose Swap is not under contract", x.Type())
		}
	}
	if _, ok := sortOf(sl.Elem()); !ok {
		unsup("sorting of elements %s", sl.Elem())
	}
	ex.permute(st, ex.term(st, ex.val(fr, st, x)), sl.Elem())
	return []Outcome{{st: st}}
}

func (ex *Exec) permute(st *State, s *Term, et types.Type) {
	c := ex.c
	es := mustSort(et)
	hs := SArr(SInt, SArr(SInt, es))
	arr, off, n := c.Sel("sl.arr", s), c.Sel("sl.off", s), c.Sel("sl.len", s)
	old := c.Select(ex.H(st, elemKey(et), hs), arr)
	nw := c.Fresh("sorted", SArr(SInt, es))
	c.fresh++
	to, from := fmt.Sprintf("perm.to!%d", c.fresh), fmt.Sprintf("perm.from!%d", c.fresh)
	i := c.BV("i", SInt)
	in := c.And(c.Le(off, i), c.Lt(i, c.Add(off, n)))
	f, t := c.App(from, SInt, i), c.App(to, SInt, i)
	at := c.op("select", es, nw, i)
	st.assume(c, c.Forall([]*Term{i}, c.Ite(in,
		c.And(c.Le(off, f), c.Lt(f, c.Add(off, n)), c.Eq(at, c.Select(old, f))),
		c.Eq(at, c.Select(old, i))), at))
	was := c.op("select", es, old, i)
	st.assume(c, c.Forall([]*Term{i}, c.Implies(in,
		c.And(c.Le(off, t), c.Lt(t, c.Add(off, n)), c.Eq(c.Select(nw, t), was))), was))
	ex.storeH(st, elemKey(et), hs, arr, nw)
}
