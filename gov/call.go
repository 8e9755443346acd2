package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callInfo describes a call to an intrinsic or opaque function.
type callInfo struct {
	name string // short name, e.g. "http.Error", "gotsrpc.Error.Is"
	sig  *types.Signature
	argT []types.Type // receiver first
	fn   *ssa.Function
	site ssa.Instruction
}

// shortName: package path reduced to its last element, no parentheses/stars.
func shortName(full string) string {
	full = strings.ReplaceAll(full, modPath+".", "gotsrpc.")
	full = strings.NewReplacer("(", "", ")", "", "*", "").Replace(full)
	if i := strings.IndexByte(full, '['); i >= 0 {
		full = full[:i]
	}
	if i := strings.LastIndexByte(full, '/'); i >= 0 {
		full = full[i+1:]
	}
	// "v2.X"
	return full
}

func (ex *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, site ssa.Instruction) []Outcome {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(fr, st, a))
	}
	return ex.invoke(fr, st, cc, ex.val(fr, st, cc.Value), args, site)
}

func (ex *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, f Val, args []Val, site ssa.Instruction) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, b, cc, args)
	}
	if cc.IsInvoke() {
		return ex.invokeMethod(fr, st, ex.term(st, f), cc.Value.Type(), cc.Method, args, site)
	}
	switch x := f.(type) {
	case *FuncV:
		return ex.callStatic(fr, st, x.fn, args, x.binds, site)
	case *Term:
		if fv, ok := ex.closures[x]; ok {
			return ex.callStatic(fr, st, fv.fn, args, fv.binds, site)
		}
		return ex.callUnknown(fr, st, x, cc.Signature(), args, site)
	}
	unsup("call of %T", f)
	return nil
}

// knownTag: the dynamic type tag of an interface term, if determined.
func (ex *Exec) knownTag(st *State, t *Term) (int64, bool) {
	tag := ex.c.TagOf(t)
	if tag.op == "int" {
		return tag.ival.Int64(), true
	}
	for _, p := range st.pc {
		if p.op == "=" {
			if p.args[0] == tag && p.args[1].op == "int" {
				return p.args[1].ival.Int64(), true
			}
			if p.args[1] == tag && p.args[0].op == "int" {
				return p.args[0].ival.Int64(), true
			}
		}
	}
	return 0, false
}

func (ex *Exec) invokeMethod(fr *Frame, st *State, recv *Term, it types.Type, m *types.Func, args []Val, site ssa.Instruction) []Outcome {
	if recv.op == "ite" {
		yes, no := ex.fork(st, recv.args[0])
		var out []Outcome
		if yes != nil {
			out = append(out, ex.invokeMethod(fr, yes, recv.args[1], it, m, args, site)...)
		}
		if no != nil {
			out = append(out, ex.invokeMethod(fr, no, recv.args[2], it, m, args, site)...)
		}
		return out
	}
	if full := shortName(m.FullName()); strings.HasPrefix(full, "reflect.Type.") {
		if in, ok := intrinsics[full]; ok {
			ci := &callInfo{name: full, sig: m.Type().(*types.Signature), site: site}
			return in(ex, fr, st, append([]Val{recv}, args...), ci)
		}
	}
	if n, ok := ex.knownTag(st, recv); ok {
		if n == 0 {
			if ex.ct != nil && ex.ct.nopanic && !st.spec {
				ex.oblige(st, "nopanic", "method "+m.Name()+" on a nil interface", ex.c.F)
			}
			return []Outcome{{st: st, panic: true}}
		}
		T := ex.eng.tags.Type(n)
		var fn *ssa.Function
		if types.NewMethodSet(T).Lookup(m.Pkg(), m.Name()) != nil {
			fn = ex.eng.prog.LookupMethod(T, m.Pkg(), m.Name())
		} else if st.spec {
			// guarded by a type test that is false here
			sig := m.Type().(*types.Signature)
			return []Outcome{{st: st, rets: ex.freshRets(st, &callInfo{name: "nomethod", sig: sig})}}
		}
		if fn != nil {
			rv := ex.unIface(st, recv, T)
			return ex.callStatic(fr, st, fn, append([]Val{rv}, args...), nil, site)
		}
	}
	if !st.spec {
		g := ex.c.Not(ex.c.Eq(recv, ex.c.INil()))
		if ex.ct != nil && ex.ct.nopanic {
			ex.oblige(st, "nopanic", "method "+m.Name()+" on a non-nil interface", g)
		}
		if !st.assume(ex.c, g) {
			return []Outcome{{st: st, panic: true}}
		}
	}
	// dynamic types whose method is under contract
	if m.Name() == "Error" && !recv.bound {
		for _, T := range ex.eng.contractedImpls(m.Name()) {
			g := ex.hasType(st, recv, T)
			if g == ex.c.F || st.pcset[ex.c.Not(g)] {
				continue
			}
			yes, no := ex.fork(st, g)
			var out []Outcome
			if yes != nil {
				fn := ex.eng.prog.LookupMethod(T, m.Pkg(), m.Name())
				rv := ex.unIface(yes, recv, T)
				if t, ok := rv.(*Term); ok {
					// a nil pointer in an error is a caller's bug
					yes.assume(ex.c, ex.c.Not(ex.c.Eq(t, ex.c.Int(0))))
				}
				out = append(out, ex.callStatic(fr, yes, fn, append([]Val{rv}, args...), nil, site)...)
			}
			if no != nil {
				out = append(out, ex.invokeMethod(fr, no, recv, it, m, args, site)...)
			}
			return out
		}
	}
	sig := m.Type().(*types.Signature)
	ci := &callInfo{name: shortName(m.FullName()), sig: sig, site: site}
	ci.argT = append(ci.argT, it)
	for i := 0; i < sig.Params().Len(); i++ {
		ci.argT = append(ci.argT, sig.Params().At(i).Type())
	}
	all := append([]Val{recv}, args...)
	if in, ok := intrinsics[ci.name]; ok {
		return ex.withEvent(fr, st, ci, all, func(s *State) []Outcome { return in(ex, fr, s, all, ci) })
	}
	// unknown implementation: arbitrary effect
	ex.escVals(st, all)
	if ex.observer(ci.name) {
		ex.note(&ex.opaque, "interface method "+ci.name+" (assumed a deterministic observer: its result depends on the receiver and arguments only, no visible effect)")
	} else {
		ex.note(&ex.opaque, "interface method "+ci.name+" (arbitrary result and effect)")
	}
	return ex.withEvent(fr, st, ci, all, func(s *State) []Outcome {
		if ex.observer(ci.name) {
			// a deterministic function of the receiver and arguments
			var ts []*Term
			for _, a := range all {
				ts = append(ts, flatten(ex, s, a)...)
			}
			var rets []Val
			for i := 0; i < ci.sig.Results().Len(); i++ {
				rets = append(rets, ex.funVal(s, fmt.Sprintf("meth.%s/%d#%d", m.Name(), len(ts), i), ci.sig.Results().At(i).Type(), ts...))
			}
			return []Outcome{{st: s, rets: rets}}
		}
		ex.havocAll(fr, s)
		return []Outcome{{st: s, rets: ex.freshRets(s, ci)}}
	})
}

// observer: interface methods assumed free of side effects on visible state.
func (ex *Exec) observer(name string) bool {
	switch name[strings.LastIndexByte(name, '.')+1:] {
	case "Error", "Unwrap", "ErrorCode", "Cause", "String", "Is", "Type", "Name", "Pos", "End", "Underlying":
		return true
	}
	return false
}

func (ex *Exec) freshRets(st *State, ci *callInfo) []Val {
	var rets []Val
	for i := 0; i < ci.sig.Results().Len(); i++ {
		rets = append(rets, ex.freshVal(st, ci.name, ci.sig.Results().At(i).Type(), false))
	}
	ex.bump(st, ci.sig.Results(), rets)
	return rets
}

// bump starts a new allocation region: the callee may have allocated the
// objects it returned.
func (ex *Exec) bump(st *State, res *types.Tuple, rets []Val) {
	if st.spec {
		return
	}
	c := ex.c
	var refs []*Term
	for i, r := range rets {
		if t, ok := r.(*Term); ok {
			switch res.At(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Map:
				refs = append(refs, t)
			case *types.Slice:
				if t.sort == SSlice {
					refs = append(refs, c.Sel("sl.arr", t))
				}
			}
		}
	}
	if len(refs) == 0 {
		return
	}
	top := c.Add(c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt), c.Int(st.alloc))
	ex.regions++
	st.region = ex.regions
	st.alloc = 0
	a := c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt)
	st.assume(c, c.Le(top, a))
	for _, r := range refs {
		st.assume(c, c.Le(r, a))
	}
}

// withEvent records the call on the trace around its execution.
func (ex *Exec) withEvent(fr *Frame, st *State, ci *callInfo, args []Val, f func(*State) []Outcome) []Outcome {
	if st.spec {
		return f(st)
	}
	if !ex.eng.isObserved(ci.name) {
		return f(st)
	}
	e := &Event{name: ci.name, args: args, argT: ci.argT, heaps: st.snapHeaps(), npc: len(st.pc), fn: ci.fn, epoch: st.epoch}
	k := len(st.trace)
	st.event(e)
	outs := f(st)
	for i := range outs {
		o := outs[i]
		if o.panic || k >= len(o.st.trace) {
			continue
		}
		e2 := *e
		e2.rets = o.rets
		for j := 0; j < ci.sig.Results().Len(); j++ {
			e2.retT = append(e2.retT, ci.sig.Results().At(j).Type())
		}
		e2.post, e2.postEpoch = o.st.snapHeaps(), o.st.epoch
		o.st.trace[k] = &e2
	}
	return outs
}

func (e *Engine) isObserved(name string) bool {
	if e.observed[name] {
		return true
	}
	for o := range e.observed {
		if strings.HasSuffix(name, "."+o) {
			return true
		}
	}
	return false
}

// callUnknown: a call through a function value we know nothing about.
func (ex *Exec) callUnknown(fr *Frame, st *State, f *Term, sig *types.Signature, args []Val, site ssa.Instruction) []Outcome {
	if f.op == "ite" {
		yes, no := ex.fork(st, f.args[0])
		var out []Outcome
		one := func(s *State, t *Term) {
			if s == nil {
				return
			}
			if fv, ok := ex.closures[t]; ok {
				out = append(out, ex.callStatic(fr, s, fv.fn, args, fv.binds, site)...)
			} else {
				out = append(out, ex.callUnknown(fr, s, t, sig, args, site)...)
			}
		}
		one(yes, f.args[1])
		one(no, f.args[2])
		return out
	}
	if !st.spec {
		ex.nonNil(st, f, "call of a nil function")
	}
	if f.op == "int" && f.ival.Sign() == 0 {
		return []Outcome{{st: st, panic: true}}
	}
	ci := &callInfo{name: dynName(site), sig: sig, site: site}
	ci.argT = []types.Type{sig}
	for i := 0; i < sig.Params().Len(); i++ {
		ci.argT = append(ci.argT, sig.Params().At(i).Type())
	}
	all := append([]Val{f}, args...)
	ex.escVals(st, args)
	ex.note(&ex.opaque, "function values passed in by the caller (arbitrary result and effect)")
	return ex.withEvent(fr, st, ci, all, func(s *State) []Outcome {
		ex.havocAll(fr, s)
		return []Outcome{{st: s, rets: ex.freshRets(s, ci)}}
	})
}

// havocAll: every object may have changed.
func (ex *Exec) havocAll(fr *Frame, st *State) {
	c := ex.c
	type keep struct {
		l *Loc
		v Val
	}
	var kept []keep
	for f := fr; f != nil; f = f.caller {
		for v, x := range f.env {
			al, ok := v.(*ssa.Alloc)
			if !ok || al.Heap {
				continue
			}
			if l, ok := x.(*Loc); ok {
				kept = append(kept, keep{l, ex.load(st, l)})
			}
		}
	}
	sort.Slice(kept, func(i, j int) bool { return kept[i].l.ref.id < kept[j].l.ref.id })
	defer func() {
		for _, k := range kept {
			ex.store(st, k.l, k.v)
		}
	}()
	if ex.wr != nil {
		ex.wr.all = true
	}
	top := c.Add(c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt), c.Int(st.alloc))
	ex.regions++
	st.region = ex.regions
	st.epoch = st.region
	st.alloc = 0
	st.assume(c, c.Le(top, c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt)))
	n := map[string]*Term{}
	for k, v := range st.heaps {
		if ex.stableHeap(k) {
			n[k] = v
			continue
		}
		if v.op == "store" && !strings.HasPrefix(k, "GH:") {
			base := c.Sym(fmt.Sprintf("H%d.%s", st.epoch, sanitize(k)), v.sort)
			if m := ex.keepLocals(st, v, base); m != base {
				n[k] = m
			}
		}
	}
	st.heaps = n
	if ex.wr != nil {
		for k := range ex.hsort {
			if !ex.stableHeap(k) {
				ex.wr.keys[k] = true
			}
		}
	}
}

// frozenHeap: ghost state describing immutable data.
// stableHeap: also locations nobody writes after package initialisation.
func (ex *Exec) stableHeap(k string) bool {
	if ex.ct != nil {
		for _, t := range ex.ct.stable {
			if strings.HasPrefix(k, "F:"+t) {
				return true
			}
		}
	}
	return strings.HasPrefix(k, "IT:") || frozenHeap(k) || ex.eng.inits != nil && ex.eng.inits.stable[k]
}

func frozenHeap(k string) bool { return strings.HasPrefix(k, "GH:frozen") }

func (ex *Exec) moduleFn(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		// wrappers / bound methods / thunks
		if fn.Synthetic != "" {
			return true
		}
		return false
	}
	return ex.eng.inModule(p.Pkg)
}

var inlineAlso = map[string]bool{
	"http.HandlerFunc.ServeHTTP": true, "http.Request.WithContext": true, "http.Request.Context": true, "http.Error": true, "http.Header.Set": true, "http.Header.Get": true, "http.Header.Del": true, "http.Header.Add": true,
	"textproto.MIMEHeader.Set": true, "textproto.MIMEHeader.Get": true, "textproto.MIMEHeader.Del": true, "textproto.MIMEHeader.Add": true,
	"errors.New": true, "errors.errorString.Error": true, "errors.Unwrap": true,
	"errors.errors.Wrap": true, "http.NewRequest": true,
	"strings.Cut": false, "context.Background": false,
}

func inlinePkg(p string) bool {
	return p == "github.com/pkg/errors" || p == "verifspec"
}

func (ex *Exec) callStatic(fr *Frame, st *State, fn *ssa.Function, args, binds []Val, site ssa.Instruction) []Outcome {
	full := fn.String()
	name := shortName(full)
	ci := &callInfo{name: name, sig: fn.Signature, fn: fn, site: site}
	{
		if r := fn.Signature.Recv(); r != nil {
			ci.argT = append(ci.argT, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ci.argT = append(ci.argT, fn.Signature.Params().At(i).Type())
		}
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == specPath {
		unsup("specification function %s called from code", name)
	}
	// method receivers reached through promoted wrappers
	if ct := ex.eng.contracts[fn]; ct != nil && !ct.inline && !(ex.inlineAll && !ct.trusted && ct != ex.ct) && ct != ex.ct0(fr) && len(binds) == 0 && ct.err == "" {
		return ex.withEvent(fr, st, ci, args, func(s *State) []Outcome {
			if !s.spec && !ct.nocapture {
				ex.escVals(s, args)
			}
			return ex.applyContract(fr, s, ct, args, ci)
		})
	}
	if in, ok := intrinsics[full]; ok {
		return ex.withEvent(fr, st, ci, args, func(s *State) []Outcome { return in(ex, fr, s, args, ci) })
	}
	if in, ok := intrinsics[name]; ok && !ex.moduleFn(fn) {
		return ex.withEvent(fr, st, ci, args, func(s *State) []Outcome { return in(ex, fr, s, args, ci) })
	}
	mod := ex.moduleFn(fn)
	if mod || inlineAlso[name] || fn.Pkg != nil && inlinePkg(fn.Pkg.Pkg.Path()) || fn.Synthetic != "" && fn.Pkg == nil {
		if mod && fn.Synthetic == "" {
			ex.note(&ex.inlined, fnKey(full))
		}
		return ex.withEvent(fr, st, ci, args, func(s *State) []Outcome { return ex.callFn(fn, args, binds, s, fr) })
	}
	// opaque dependency
	ex.escVals(st, args)
	ex.note(&ex.opaque, fnKey(full)+" (arbitrary result; may change what its pointer arguments refer to)")
	return ex.withEvent(fr, st, ci, args, func(s *State) []Outcome {
		for i, a := range args {
			if i < len(ci.argT) {
				ex.havocReach(s, a, ci.argT[i], 2)
			}
		}
		return []Outcome{{st: s, rets: ex.freshRets(s, ci)}}
	})
}

// ct0: the contract under verification, but only for the outermost frame
// (recursive calls use the contract).
func (ex *Exec) ct0(fr *Frame) *Contract { return nil }

// havocReach: the object a pointer argument refers to becomes arbitrary.
func (ex *Exec) havocReach(st *State, v Val, T types.Type, depth int) {
	if depth == 0 {
		return
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		l := ex.locOf(v, u.Elem())
		if t, ok := v.(*Term); ok && t.op == "int" && t.ival.Sign() == 0 {
			return
		}
		// opaque library types keep their state to themselves
		if n, ok := u.Elem().(*types.Named); ok && !ex.eng.inModule(n.Obj().Pkg()) {
			if _, isS := isStruct(u.Elem()); isS {
				return
			}
		}
		ex.store(st, l, ex.freshVal(st, "havoc", u.Elem(), false))
	case *types.Interface:
		t, ok := v.(*Term)
		if !ok {
			return
		}
		if n, ok := ex.knownTag(st, t); ok && n != 0 {
			DT := ex.eng.tags.Type(n)
			if _, isI := DT.Underlying().(*types.Interface); !isI {
				if _, isP := DT.Underlying().(*types.Pointer); isP {
					ex.havocReach(st, ex.unIface(st, t, DT), DT, depth-1)
				}
			}
		}
	}
}

// ---- builtins ---------------------------------------------------------------

func (ex *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Val) []Outcome {
	c := ex.c
	one := func(v Val) []Outcome { return []Outcome{{st: st, rets: []Val{v}}} }
	var at types.Type
	if len(cc.Args) > 0 {
		at = cc.Args[0].Type()
	}
	switch b.Name() {
	case "len":
		return one(ex.lenOf(st, args[0], at))
	case "cap":
		return one(c.Sel("sl.cap", ex.term(st, args[0])))
	case "append":
		s := ex.term(st, args[0])
		t := ex.term(st, args[1])
		return one(ex.appendSlice(st, s, t, at, t.sort == SStr))
	case "copy":
		return one(ex.copySlice(st, args, cc))
	case "delete":
		mt := at.Underlying().(*types.Map)
		m := ex.term(st, args[0])
		if m.op == "int" && m.ival.Sign() == 0 {
			return []Outcome{{st: st}}
		}
		ex.mapDel(st, mt, m, ex.mapKey(st, args[1]))
		return []Outcome{{st: st}}
	case "print", "println":
		return []Outcome{{st: st}}
	case "recover":
		return one(c.INil())
	case "close":
		return []Outcome{{st: st}}
	case "min", "max":
		x := ex.term(st, args[0])
		for _, a := range args[1:] {
			y := ex.term(st, a)
			if b.Name() == "min" {
				x = c.Ite(c.Le(x, y), x, y)
			} else {
				x = c.Ite(c.Le(x, y), y, x)
			}
		}
		return one(x)
	case "ssa:wrapnilchk":
		ex.nonNil(st, ex.term(st, args[0]), "method value receiver")
		return one(args[0])
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (ex *Exec) lenOf(st *State, v Val, T types.Type) *Term {
	c := ex.c
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return c.Len(ex.term(st, v))
	case *types.Slice:
		t := ex.term(st, v)
		if isSeq(t.sort) {
			return c.SeqLen(t)
		}
		return c.Sel("sl.len", t)
	case *types.Array:
		return c.Int(u.Len())
	case *types.Pointer:
		return c.Int(u.Elem().Underlying().(*types.Array).Len())
	case *types.Map:
		m := ex.term(st, v)
		dom := ex.mapDom(st, u, m)
		n := int64(0)
		d := dom
		exact := true
		for d.op == "store" {
			if d.args[2] != c.T {
				exact = false
				break
			}
			// distinct keys only
			e := d.args[0]
			for e.op == "store" {
				if !c.distinct(e.args[1], d.args[1]) {
					exact = false
				}
				e = e.args[0]
			}
			n++
			d = d.args[0]
		}
		if exact && d.op == "constarr" && d.args[0] == c.F {
			return c.Int(n)
		}
		ks, _ := ex.mapKeys(u)
		t := c.App("card:"+string(ks), SInt, dom)
		if !t.bound {
			st.assume(c, c.Le(c.Int(0), t))
			k := c.BV("k", ks)
			st.assume(c, c.Eq(c.Eq(t, c.Int(0)), c.Forall([]*Term{k}, c.Not(c.Select(dom, k)))))
		}
		return c.Ite(c.Eq(m, c.Int(0)), c.Int(0), t)
	}
	unsup("len of %s", T)
	return nil
}

func (ex *Exec) copySlice(st *State, args []Val, cc *ssa.CallCommon) Val {
	c := ex.c
	d, s := ex.term(st, args[0]), ex.term(st, args[1])
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := mustSort(et)
	key := elemKey(et)
	hs := SArr(SInt, SArr(SInt, es))
	h := ex.H(st, key, hs)
	var slen, soff, scont *Term
	if s.sort == SStr {
		slen, soff, scont = c.Len(s), c.Int(0), c.App("bytesarr", SArr(SInt, SInt), s)
	} else {
		slen, soff, scont = c.Sel("sl.len", s), c.Sel("sl.off", s), c.Select(h, c.Sel("sl.arr", s))
	}
	dlen := c.Sel("sl.len", d)
	n := c.Ite(c.Le(slen, dlen), slen, dlen)
	darr, doff := c.Sel("sl.arr", d), c.Sel("sl.off", d)
	if n.op == "int" && n.ival.Int64() <= 32 {
		cont := c.Select(h, darr)
		for i := int64(0); i < n.ival.Int64(); i++ {
			cont = c.Store(cont, c.Add(doff, c.Int(i)), c.Select(scont, c.Add(soff, c.Int(i))))
		}
		ex.storeH(st, key, hs, darr, cont)
		return n
	}
	old := c.Select(h, darr)
	nw := c.Fresh("copied", SArr(SInt, es))
	i := c.BV("i", SInt)
	in := c.And(c.Le(doff, i), c.Lt(i, c.Add(doff, n)))
	st.assume(c, c.Forall([]*Term{i}, c.Eq(c.op("select", es, nw, i), c.Ite(in, c.Select(scont, c.Add(soff, c.Sub(i, doff))), c.Select(old, i))), c.op("select", es, nw, i)))
	ex.storeH(st, key, hs, darr, nw)
	return n
}

// contractedImpls: module types whose method of that name has a contract.
func (e *Engine) contractedImpls(name string) []types.Type {
	var out []types.Type
	for _, ct := range e.ctList {
		if ct.fn.Name() == name && ct.fn.Signature.Recv() != nil && ct.err == "" && !ct.inline {
			out = append(out, ct.fn.Signature.Recv().Type())
		}
	}
	return out
}

// dynName: calls of function variables are named after the variable.
func dynName(site ssa.Instruction) string {
	if ci, ok := site.(ssa.CallInstruction); ok && ci.Common() != nil {
		if u, ok := ci.Common().Value.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil {
				return shortName(g.Pkg.Pkg.Path() + "." + g.Name())
			}
		}
	}
	return "dyn"
}
