package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----------------------------------------------------------------

type Val interface{}

type StructV struct {
	typ types.Type
	f   []Val
}

type TupleV struct{ v []Val }

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	ref   *Term
}

// Loc is an address.
type Loc struct {
	kind string // "field" "elem" "cell" "glob"
	key  string // heap key (without path)
	ref  *Term
	idx  *Term
	typ  types.Type
}

// IterV: a range iterator over a map or a string.
type IterV struct {
	kind string // map | str
	x    *Term
	typ  types.Type
	id   string // ghost heap key for the iterator position / visited set
}

type Event struct {
	name             string
	recv             Val
	args             []Val
	argT             []types.Type
	rets             []Val
	retT             []types.Type
	heaps            map[string]*Term // heaps just before the event
	post             map[string]*Term
	npc              int
	epoch, postEpoch int
	loop             bool // summarises events inside a loop: names in set
	set              map[string]bool
	fn               *ssa.Function
}

type State struct {
	pc      []*Term
	pcset   map[*Term]bool
	heaps   map[string]*Term
	trace   []*Event
	region  int
	alloc   int64
	esc     *escSet // shared by states that need not be told apart
	unro    bool    // some loop was cut on this path
	path    []string
	epoch   int // heaps not yet touched are named after this region
	br      []branchMark
	boundOK bool // inside the evaluation of a quantified specification
	spec    bool // evaluating a specification: no panics, no implied facts
}

// branchMark: pc[idx] is a path decision (not merely a derived fact).
type branchMark struct {
	idx  int
	cond *Term
}

func (st *State) clone() *State {
	n := &State{region: st.region, alloc: st.alloc, unro: st.unro, epoch: st.epoch, boundOK: st.boundOK, spec: st.spec, esc: st.escapes()}
	n.br = append([]branchMark(nil), st.br...)
	n.pc = append([]*Term(nil), st.pc...)
	n.pcset = make(map[*Term]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.heaps = make(map[string]*Term, len(st.heaps))
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.trace = append([]*Event(nil), st.trace...)
	n.path = append([]string(nil), st.path...)
	return n
}

func (st *State) snapHeaps() map[string]*Term {
	m := make(map[string]*Term, len(st.heaps))
	for k, v := range st.heaps {
		m[k] = v
	}
	return m
}

// assume adds a fact; reports false if it is syntactically contradictory.
func (st *State) assume(c *Ctx, t *Term) bool {
	if t == c.T {
		return true
	}
	if t.bound && !st.boundOK {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !st.assume(c, a) {
				return false
			}
		}
		return true
	}
	if st.pcset[t] {
		return true
	}
	st.pc = append(st.pc, t)
	st.pcset[t] = true
	if t == c.F || st.pcset[c.Not(t)] {
		return false
	}
	return true
}

// ---- heaps -----------------------------------------------------------------

// heapSorts: sort of each heap key.
func (ex *Exec) heapSort(key string) Sort {
	if s, ok := ex.hsort[key]; ok {
		return s
	}
	panic("unknown heap " + key)
}

func (ex *Exec) H(st *State, key string, s Sort) *Term {
	if o, ok := ex.hsort[key]; ok {
		if o != s {
			unsup("heap %s used at sorts %s and %s", key, o, s)
		}
	} else {
		ex.hsort[key] = s
	}
	if ex.rec != nil {
		ex.rec.read[key] = true
	}
	if h, ok := st.heaps[key]; ok {
		return h
	}
	ep := st.epoch
	if ex.eng.inits != nil && ex.eng.inits.stable[key] {
		ep = 0
	}
	h := ex.c.Sym(fmt.Sprintf("H%d.%s", ep, sanitize(key)), s)
	if ex.holdsRefs(key) {
		ex.boundRefs(h, ep)
	}
	st.heaps[key] = h
	return h
}

func (ex *Exec) holdsRefs(key string) bool {
	return ex.refKeys[key] || strings.HasPrefix(key, refElems) || ex.hsort[key] == SArr(SInt, SSlice)
}

// boundRefs: the heap of references h is that of the start of a region, when
// nothing beyond its ALLOC symbol existed.
func (ex *Exec) boundRefs(h *Term, region int) {
	if ex.refTop == nil {
		ex.refTop = map[*Term]*Term{}
	}
	if ex.refTop[h] == nil {
		ex.refTop[h] = ex.c.Sym(fmt.Sprintf("ALLOC%d", region), SInt)
	}
}

func (ex *Exec) setH(st *State, key string, t *Term) {
	if ex.wr != nil {
		ex.wr.keys[key] = true
	}
	st.heaps[key] = t
}

type recorder struct{ read map[string]bool }

// writeRef is an object written, with the path condition at that point.
type writeRef struct {
	r  *Term
	pc []*Term
}

type writeRec struct {
	keys  map[string]bool
	refs  map[string][]writeRef // refs written, per key
	all   bool
	reach []*Term
}

func (ex *Exec) storeH(st *State, key string, s Sort, ref, v *Term) {
	h := ex.H(st, key, s)
	if ex.wr != nil {
		ex.wr.refs[key] = append(ex.wr.refs[key], writeRef{ref, st.pc[:len(st.pc):len(st.pc)]})
	}
	ex.noteStore(st, ref, v)
	ex.setH(st, key, ex.c.Store(h, ref, v))
}

func (ex *Exec) newRef(st *State) *Term {
	st.alloc++
	return ex.c.Add(ex.c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt), ex.c.Int(st.alloc))
}

func fieldKey(t types.Type, path string) string { return "F:" + typeKey(t) + path }

// load reads a value of type T at a location.
func (ex *Exec) load(st *State, l *Loc) Val {
	T := l.typ
	if _, isS := isStruct(T); isS && l.kind != "glob" {
		return ex.loadStruct(st, T, ex.locRef(l))
	}
	if _, isA := T.Underlying().(*types.Array); isA {
		return ex.loadArray(st, T, ex.locRef(l))
	}
	if v := ex.initRead(st, l); v != nil {
		return v
	}
	s := mustSort(T)
	var t *Term
	switch l.kind {
	case "field", "cell":
		switch T.Underlying().(type) {
		case *types.Map, *types.Pointer:
			if ex.refKeys == nil {
				ex.refKeys = map[string]bool{}
			}
			ex.refKeys[l.key] = true
			if h := ex.H(st, l.key, SArr(SInt, s)); h.op == "sym" && strings.HasPrefix(h.sval, fmt.Sprintf("H%d.", st.epoch)) && !strings.Contains(h.sval, "!") {
				ex.boundRefs(h, st.epoch)
			}
		}
		t = ex.c.Select(ex.H(st, l.key, SArr(SInt, s)), l.ref)
	case "elem":
		t = ex.c.Select(ex.c.Select(ex.H(st, l.key, SArr(SInt, SArr(SInt, s))), l.ref), l.idx)
	default:
		unsup("load kind %s", l.kind)
	}
	ex.typeFacts(st, t, T)
	return ex.wrapVal(t, T)
}

// wrapVal turns a function-typed term back into a known closure.
func (ex *Exec) wrapVal(t *Term, T types.Type) Val {
	if _, ok := T.Underlying().(*types.Signature); ok {
		if f, ok := ex.closures[t]; ok {
			return f
		}
	}
	return t
}

func (ex *Exec) typeFacts(st *State, t *Term, T types.Type) {
	if t.bound {
		return
	}
	switch T.Underlying().(type) {
	case *types.Slice:
		if t.sort == SSlice && t.op != "mkslice" {
			ex.sliceFacts(st, t)
		}
	case *types.Map, *types.Pointer:
		// references held in the initial heap are initial
		if t.old && t.op != "int" && !t.isConst() {
			st.assume(ex.c, ex.c.Le(t, ex.c.Sym("ALLOC0", SInt)))
		}
	}
}

func (ex *Exec) sliceFacts(st *State, t *Term) {
	c := ex.c
	ln, off, cp, arr := c.Sel("sl.len", t), c.Sel("sl.off", t), c.Sel("sl.cap", t), c.Sel("sl.arr", t)
	st.assume(c, c.Le(c.Int(0), ln))
	st.assume(c, c.Le(ln, cp))
	st.assume(c, c.Le(c.Int(0), off))
	st.assume(c, c.Or(c.Not(c.Eq(arr, c.Int(0))), c.Eq(cp, c.Int(0))))
	if t.old {
		st.assume(c, c.Le(arr, c.Sym("ALLOC0", SInt)))
	}
}

func (ex *Exec) store(st *State, l *Loc, v Val) {
	T := l.typ
	if _, isS := isStruct(T); isS {
		ex.storeStruct(st, T, ex.locRef(l), v)
		return
	}
	if at, isA := T.Underlying().(*types.Array); isA {
		sv := v.(*StructV)
		for i := int64(0); i < at.Len(); i++ {
			ex.store(st, ex.elemLoc(at.Elem(), ex.locRef(l), ex.c.Int(i)), sv.f[i])
		}
		return
	}
	s := mustSort(T)
	t := ex.term(st, v)
	if t.sort != s {
		unsup("store sort mismatch %s: %s vs %s", l.key, t.sort, s)
	}
	switch l.kind {
	case "field", "cell":
		ex.storeH(st, l.key, SArr(SInt, s), l.ref, t)
	case "elem":
		hs := SArr(SInt, SArr(SInt, s))
		h := ex.H(st, l.key, hs)
		ex.storeH(st, l.key, hs, l.ref, ex.c.Store(ex.c.Select(h, l.ref), l.idx, t))
	default:
		unsup("store kind %s", l.kind)
	}
}

// locRef: the reference of the (struct or array) object at l.
func (ex *Exec) locRef(l *Loc) *Term {
	switch l.kind {
	case "cell":
		return l.ref
	case "field":
		return ex.c.App("sub."+l.key, SInt, l.ref)
	case "elem":
		return ex.c.App("el."+l.key, SInt, l.ref, l.idx)
	}
	unsup("locRef %s", l.kind)
	return nil
}

func (ex *Exec) fieldLoc(T types.Type, st *types.Struct, i int, ref *Term) *Loc {
	f := st.Field(i)
	return &Loc{kind: "field", key: fieldKey(T, "."+f.Name()), ref: ref, typ: f.Type()}
}

// elemKey: the heap of the elements of slices and arrays of T.
func elemKey(T types.Type) string {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return refElems + typeKey(T)
	}
	if s, ok := sortOf(T); ok {
		return "E:" + string(s)
	}
	return "E:" + typeKey(T)
}

// refElems begins the names of the heaps of elements that are references, one
// for each type of reference: no array is of two of them.
const refElems = "E:Ref:"

func (ex *Exec) elemLoc(T types.Type, arr, idx *Term) *Loc {
	return &Loc{kind: "elem", key: elemKey(T), ref: arr, idx: idx, typ: T}
}

func (ex *Exec) loadStruct(st *State, T types.Type, ref *Term) Val {
	s, _ := isStruct(T)
	sv := &StructV{typ: T}
	for i := 0; i < s.NumFields(); i++ {
		sv.f = append(sv.f, ex.load(st, ex.fieldLoc(T, s, i, ref)))
	}
	return sv
}

func (ex *Exec) storeStruct(st *State, T types.Type, ref *Term, v Val) {
	s, _ := isStruct(T)
	sv, ok := v.(*StructV)
	if !ok {
		unsup("storeStruct of %T", v)
	}
	for i := 0; i < s.NumFields(); i++ {
		ex.store(st, ex.fieldLoc(T, s, i, ref), sv.f[i])
	}
}

func (ex *Exec) loadArray(st *State, T types.Type, ref *Term) Val {
	at := T.Underlying().(*types.Array)
	if at.Len() > 64 {
		unsup("large array")
	}
	sv := &StructV{typ: T}
	for i := int64(0); i < at.Len(); i++ {
		sv.f = append(sv.f, ex.load(st, ex.elemLoc(at.Elem(), ref, ex.c.Int(i))))
	}
	return sv
}

// locOf turns a pointer value into a location of pointee type T.
func (ex *Exec) locOf(v Val, T types.Type) *Loc {
	switch x := v.(type) {
	case *Loc:
		return x
	case *Term:
		if l, ok := ex.locs[x]; ok {
			return l
		}
		if _, ok := isStruct(T); ok {
			return &Loc{kind: "cell", ref: x, typ: T}
		}
		if _, ok := T.Underlying().(*types.Array); ok {
			return &Loc{kind: "cell", ref: x, typ: T}
		}
		return &Loc{kind: "cell", key: "C:" + string(mustSort(T)), ref: x, typ: T}
	}
	unsup("pointer value %T", v)
	return nil
}

// term converts a value to an SMT term (atomic types only).
func (ex *Exec) term(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *FuncV:
		if x.ref == nil {
			if len(x.binds) == 0 {
				x.ref = ex.c.Int(-1000000 - ex.eng.fnID(x.fn))
			} else {
				x.ref = ex.newRef(st)
			}
		}
		if o, ok := ex.closures[x.ref]; ok {
			return o.ref
		}
		ex.closures[x.ref] = x
		return x.ref
	case *Loc:
		if _, ok := isStruct(x.typ); ok {
			return ex.locRef(x)
		}
		if x.kind == "cell" {
			return x.ref
		}
		var t *Term
		if x.kind == "field" {
			t = ex.c.App("addr."+x.key, SInt, x.ref)
		} else {
			t = ex.c.App("addr."+x.key, SInt, x.ref, x.idx)
		}
		ex.locs[t] = x
		return t
	case *StructV:
		unsup("struct value used as a term: %s", x.typ)
	}
	if os.Getenv("GOV_PANIC") != "" {
		panic("used as a term")
	}
	unsup("value %T used as a term", v)
	return nil
}

// zeroVal of a type.
func (ex *Exec) zeroVal(T types.Type) Val {
	if s, ok := sortOf(T); ok {
		return ex.c.Zero(s)
	}
	if s, ok := isStruct(T); ok {
		sv := &StructV{typ: T}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, ex.zeroVal(s.Field(i).Type()))
		}
		return sv
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		sv := &StructV{typ: T}
		for i := int64(0); i < at.Len(); i++ {
			sv.f = append(sv.f, ex.zeroVal(at.Elem()))
		}
		return sv
	}
	if tt, ok := T.(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			tv.v = append(tv.v, ex.zeroVal(tt.At(i).Type()))
		}
		return tv
	}
	unsup("zero of %s", T)
	return nil
}

// freshVal: an arbitrary value of a type.
func (ex *Exec) freshVal(st *State, name string, T types.Type, old bool) Val {
	if s, ok := sortOf(T); ok {
		var t *Term
		if old {
			t = ex.c.OldSym(name, s)
		} else {
			t = ex.c.Fresh(name, s)
		}
		ex.typeFacts(st, t, T)
		if ex.fkind != nil {
			ex.fkind(t, T)
		}
		return t
	}
	if s, ok := isStruct(T); ok {
		sv := &StructV{typ: T}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, ex.freshVal(st, name+"."+s.Field(i).Name(), s.Field(i).Type(), old))
		}
		return sv
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		sv := &StructV{typ: T}
		for i := int64(0); i < at.Len(); i++ {
			sv.f = append(sv.f, ex.freshVal(st, fmt.Sprintf("%s[%d]", name, i), at.Elem(), old))
		}
		return sv
	}
	if tt, ok := T.(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			tv.v = append(tv.v, ex.freshVal(st, fmt.Sprintf("%s.%d", name, i), tt.At(i).Type(), old))
		}
		return tv
	}
	unsup("fresh of %s", T)
	return nil
}

// funVal: value of type T given by uninterpreted functions of args.
func (ex *Exec) funVal(st *State, name string, T types.Type, args ...*Term) Val {
	if s, ok := sortOf(T); ok {
		t := ex.c.App(name, s, args...)
		ex.typeFacts(st, t, T)
		return t
	}
	if s, ok := isStruct(T); ok {
		sv := &StructV{typ: T}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, ex.funVal(st, name+"."+s.Field(i).Name(), s.Field(i).Type(), args...))
		}
		return sv
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		sv := &StructV{typ: T}
		for i := int64(0); i < at.Len(); i++ {
			sv.f = append(sv.f, ex.funVal(st, fmt.Sprintf("%s[%d]", name, i), at.Elem(), args...))
		}
		return sv
	}
	unsup("funVal of %s", T)
	return nil
}

func flatten(ex *Exec, st *State, v Val) []*Term {
	switch x := v.(type) {
	case *StructV:
		var out []*Term
		for _, f := range x.f {
			out = append(out, flatten(ex, st, f)...)
		}
		return out
	default:
		return []*Term{ex.term(st, v)}
	}
}

func (ex *Exec) unflatten(T types.Type, ts []*Term) (Val, []*Term) {
	if _, ok := sortOf(T); ok {
		return ex.wrapVal(ts[0], T), ts[1:]
	}
	if s, ok := isStruct(T); ok {
		sv := &StructV{typ: T}
		for i := 0; i < s.NumFields(); i++ {
			var v Val
			v, ts = ex.unflatten(s.Field(i).Type(), ts)
			sv.f = append(sv.f, v)
		}
		return sv, ts
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		sv := &StructV{typ: T}
		for i := int64(0); i < at.Len(); i++ {
			var v Val
			v, ts = ex.unflatten(at.Elem(), ts)
			sv.f = append(sv.f, v)
		}
		return sv, ts
	}
	unsup("unflatten %s", T)
	return nil, nil
}

// iteVal merges two values.
func (ex *Exec) iteVal(st *State, cond *Term, a, b Val) Val {
	switch x := a.(type) {
	case *StructV:
		y := b.(*StructV)
		r := &StructV{typ: x.typ}
		for i := range x.f {
			r.f = append(r.f, ex.iteVal(st, cond, x.f[i], y.f[i]))
		}
		return r
	case *TupleV:
		y := b.(*TupleV)
		r := &TupleV{}
		for i := range x.v {
			r.v = append(r.v, ex.iteVal(st, cond, x.v[i], y.v[i]))
		}
		return r
	}
	if a == b {
		return a
	}
	return ex.c.Ite(cond, ex.term(st, a), ex.term(st, b))
}

// ---- maps ------------------------------------------------------------------

func (ex *Exec) mapKeys(mt *types.Map) (ks Sort, dom string) {
	ks = mustSort(mt.Key())
	return ks, "MD:" + string(ks) + ":" + typeKey(mt.Elem())
}

func (ex *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	ks, dk := ex.mapKeys(mt)
	return ex.c.Select(ex.H(st, dk, SArr(SInt, SArr(ks, SBool))), m)
}

func (ex *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	ks, dk := ex.mapKeys(mt)
	ok := ex.c.Select(ex.c.Select(ex.H(st, dk, SArr(SInt, SArr(ks, SBool))), m), k)
	var ts []*Term
	for _, l := range leavesOf(mt.Elem()) {
		hk := "MV:" + string(ks) + ":" + typeKey(mt.Elem()) + l.path
		v := ex.c.Select(ex.c.Select(ex.H(st, hk, SArr(SInt, SArr(ks, l.sort))), m), k)
		ex.typeFacts(st, v, l.typ)
		ts = append(ts, v)
	}
	v, _ := ex.unflatten(mt.Elem(), ts)
	return v, ok
}

// mapLookup gives the Go semantics of m[k].
func (ex *Exec) mapLookup(st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	if v, ok := ex.litLookup(st, mt, m, k); ok != nil {
		return v, ok
	}
	v, ok := ex.mapGet(st, mt, m, k)
	nn := ex.c.Not(ex.c.Eq(m, ex.c.Int(0)))
	ok = ex.c.And(nn, ok)
	return ex.iteVal(st, ok, v, ex.zeroVal(mt.Elem())), ok
}

func (ex *Exec) mapPut(st *State, mt *types.Map, m, k *Term, v Val) {
	ks, dk := ex.mapKeys(mt)
	s := SArr(SInt, SArr(ks, SBool))
	h := ex.H(st, dk, s)
	ex.storeH(st, dk, s, m, ex.c.Store(ex.c.Select(h, m), k, ex.c.T))
	ts := flatten(ex, st, v)
	for i, l := range leavesOf(mt.Elem()) {
		hk := "MV:" + string(ks) + ":" + typeKey(mt.Elem()) + l.path
		s := SArr(SInt, SArr(ks, l.sort))
		h := ex.H(st, hk, s)
		ex.storeH(st, hk, s, m, ex.c.Store(ex.c.Select(h, m), k, ts[i]))
	}
}

func (ex *Exec) mapDel(st *State, mt *types.Map, m, k *Term) {
	ks, dk := ex.mapKeys(mt)
	s := SArr(SInt, SArr(ks, SBool))
	h := ex.H(st, dk, s)
	ex.storeH(st, dk, s, m, ex.c.Store(ex.c.Select(h, m), k, ex.c.F))
}

func (st *State) event(e *Event) {
	st.trace = append(st.trace, e)
}

func pathStr(st *State) string { return strings.Join(st.path, " ") }
