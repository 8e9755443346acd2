package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// ev evaluates specification expressions over a symbolic state.
type ev struct {
	ex       *Exec
	fr       *Frame
	st       *State
	oldH     map[string]*Term
	oldEpoch int
	env      map[types.Object]Val
	pkg      *packages.Package
	macros   map[types.Object]ast.Expr
	depth    int
	trace    []*Event
	results  []Val
	// fresh: objects allocated after this mark are new (entry if nil)
	fresh *Term
}

func (v *ev) sub() *ev {
	n := *v
	n.env = make(map[types.Object]Val, len(v.env)+4)
	for k, x := range v.env {
		n.env[k] = x
	}
	return &n
}

func (v *ev) c() *Ctx { return v.ex.c }

func (v *ev) typeOf(e ast.Expr) types.Type { return v.pkg.TypesInfo.TypeOf(e) }

func (v *ev) bool(e ast.Expr) *Term {
	return v.ex.term(v.st, v.eval(e))
}

// evalTo evaluates with implicit conversion to T.
func (v *ev) evalTo(e ast.Expr, T types.Type) Val {
	x := v.eval(e)
	return v.conv(x, v.typeOf(e), T)
}

func (v *ev) conv(x Val, from, to types.Type) Val {
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return v.ex.zeroVal(to)
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		if _, ok := from.Underlying().(*types.Interface); !ok {
			if b, ok := from.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				from = types.Default(from)
			}
			return v.ex.makeIface(v.st, x, from)
		}
	}
	return x
}

func (v *ev) eval(e ast.Expr) Val {
	ex, c, st := v.ex, v.c(), v.st
	info := v.pkg.TypesInfo
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		T := tv.Type
		if _, isI := T.Underlying().(*types.Interface); !isI {
			return ex.constTerm(tv.Value, T)
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return v.eval(x.X)
	case *ast.Ident:
		o := info.Uses[x]
		if o == nil {
			o = info.Defs[x]
		}
		if val, ok := v.env[o]; ok {
			return val
		}
		if m, ok := v.macros[o]; ok {
			return v.eval(m)
		}
		switch o := o.(type) {
		case *types.Nil:
			return c.Int(0)
		case *types.Var:
			return v.global(o)
		case *types.Func:
			fn := ex.eng.prog.FuncValue(o)
			f := &FuncV{fn: fn}
			ex.term(st, f)
			return f
		}
		unsup("spec: identifier %s", x.Name)
	case *ast.SelectorExpr:
		if sel, ok := info.Selections[x]; ok {
			if sel.Kind() != types.FieldVal {
				unsup("spec: method value %s", x.Sel.Name)
			}
			return v.selectPath(v.eval(x.X), v.typeOf(x.X), sel.Index())
		}
		switch o := info.Uses[x.Sel].(type) {
		case *types.Var:
			return v.global(o)
		case *types.Func:
			fn := ex.eng.prog.FuncValue(o)
			f := &FuncV{fn: fn}
			ex.term(st, f)
			return f
		}
		unsup("spec: selector %s", x.Sel.Name)
	case *ast.StarExpr:
		T := v.typeOf(x.X).Underlying().(*types.Pointer).Elem()
		return ex.load(st, ex.locOf(v.eval(x.X), T))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return c.Not(v.bool(x.X))
		case token.SUB:
			return c.Neg(ex.term(st, v.eval(x.X)))
		case token.AND:
			if id, ok := x.X.(*ast.Ident); ok {
				if g, ok := info.Uses[id].(*types.Var); ok {
					if gl := v.ssaGlobal(g); gl != nil {
						return ex.globalAddr(gl)
					}
				}
			}
			if sx, ok := x.X.(*ast.SelectorExpr); ok {
				if sel, ok := info.Selections[sx]; ok && len(sel.Index()) == 1 {
					if pt, ok := v.typeOf(sx.X).Underlying().(*types.Pointer); ok {
						s, _ := isStruct(pt.Elem())
						base := ex.locOf(v.eval(sx.X), pt.Elem())
						return ex.fieldLoc(pt.Elem(), s, sel.Index()[0], ex.locRef(base))
					}
				}
			}
			unsup("spec: address of")
		}
	case *ast.BinaryExpr:
		return v.binary(x)
	case *ast.IndexExpr:
		return v.index(x)
	case *ast.SliceExpr:
		s := ex.term(st, v.eval(x.X))
		if s.sort == SStr {
			lo, hi := c.Int(0), c.Len(s)
			if x.Low != nil {
				lo = ex.term(st, v.eval(x.Low))
			}
			if x.High != nil {
				hi = ex.term(st, v.eval(x.High))
			}
			return c.Substr(s, lo, c.Sub(hi, lo))
		}
		lo, hi := c.Int(0), c.Sel("sl.len", s)
		if x.Low != nil {
			lo = ex.term(st, v.eval(x.Low))
		}
		if x.High != nil {
			hi = ex.term(st, v.eval(x.High))
		}
		return c.op("mkslice", SSlice, c.Sel("sl.arr", s), c.Add(c.Sel("sl.off", s), lo), c.Sub(hi, lo), c.Sub(c.Sel("sl.cap", s), lo))
	case *ast.TypeAssertExpr:
		t := ex.term(st, v.eval(x.X))
		T := v.typeOf(x.Type)
		if _, ok := T.Underlying().(*types.Interface); ok {
			return t
		}
		return ex.unIface(st, t, T)
	case *ast.CallExpr:
		return v.call(x)
	case *ast.CompositeLit:
		T := v.typeOf(x)
		if s, ok := isStruct(T); ok {
			sv := ex.zeroVal(T).(*StructV)
			for i, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					for j := 0; j < s.NumFields(); j++ {
						if s.Field(j).Name() == kv.Key.(*ast.Ident).Name {
							sv.f[j] = v.evalTo(kv.Value, s.Field(j).Type())
						}
					}
				} else {
					sv.f[i] = v.evalTo(el, s.Field(i).Type())
				}
			}
			return sv
		}
		if n, ok := T.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == specPath {
			et := T.Underlying().(*types.Slice).Elem()
			var ps []*Term
			ps = append(ps, c.SeqEmpty(mustSort(et)))
			for _, el := range x.Elts {
				ps = append(ps, c.SeqUnit(ex.term(st, v.evalTo(el, et))))
			}
			return c.Concat(ps...)
		}
		unsup("spec: composite literal of %s", T)
	}
	unsup("spec: expression %T", e)
	return nil
}

func (v *ev) ssaGlobal(o *types.Var) *ssa.Global {
	if o.Pkg() == nil {
		return nil
	}
	sp := v.ex.eng.prog.Package(o.Pkg())
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[o.Name()].(*ssa.Global)
	return g
}

func (v *ev) global(o *types.Var) Val {
	g := v.ssaGlobal(o)
	if g == nil {
		unsup("spec: variable %s", o.Name())
	}
	return v.ex.load(v.st, v.ex.globalAddr(g).(*Loc))
}

func (v *ev) selectPath(base Val, T types.Type, path []int) Val {
	ex, st := v.ex, v.st
	for _, i := range path {
		if p, ok := T.Underlying().(*types.Pointer); ok {
			s, _ := isStruct(p.Elem())
			ref := ex.locRef(ex.locOf(base, p.Elem()))
			base = ex.load(st, ex.fieldLoc(p.Elem(), s, i, ref))
			T = s.Field(i).Type()
			continue
		}
		s, ok := isStruct(T)
		if !ok {
			unsup("spec: field of %s", T)
		}
		sv, ok := base.(*StructV)
		if !ok {
			if l, isL := base.(*Loc); isL {
				sv = ex.load(st, l).(*StructV)
			} else {
				unsup("spec: struct value %T", base)
			}
		}
		base = sv.f[i]
		T = s.Field(i).Type()
	}
	return base
}

func (v *ev) binary(x *ast.BinaryExpr) Val {
	ex, c, st := v.ex, v.c(), v.st
	switch x.Op {
	case token.LAND:
		a := v.bool(x.X)
		if a == c.F {
			return c.F
		}
		return c.And(a, v.bool(x.Y))
	case token.LOR:
		a := v.bool(x.X)
		if a == c.T {
			return c.T
		}
		return c.Or(a, v.bool(x.Y))
	}
	tx, ty := v.typeOf(x.X), v.typeOf(x.Y)
	if isNil(tx) {
		tx = ty
	}
	if isNil(ty) {
		ty = tx
	}
	a := v.evalTo(x.X, tx)
	b := v.evalTo(x.Y, ty)
	if x.Op == token.EQL || x.Op == token.NEQ {
		a, b = v.conv(a, tx, ty), v.conv(b, ty, tx)
		if _, ok := ty.Underlying().(*types.Interface); ok {
			tx = ty
		}
	}
	if isSeqT(tx) && (x.Op == token.EQL || x.Op == token.NEQ) {
		r := c.Eq(ex.term(st, a), ex.term(st, b))
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	// specification arithmetic is mathematical
	switch x.Op {
	case token.MUL:
		return c.Mul(ex.term(st, a), ex.term(st, b))
	}
	return ex.binop(st, x.Op, a, b, tx, ty, v.typeOf(x))
}

func isNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func isSeqT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == specPath && n.Obj().Name() == "Seq"
}

func (v *ev) index(x *ast.IndexExpr) Val {
	ex, c, st := v.ex, v.c(), v.st
	T := v.typeOf(x.X)
	base := v.eval(x.X)
	if mt, ok := T.Underlying().(*types.Map); ok {
		k := ex.term(st, v.evalTo(x.Index, mt.Key()))
		r, _ := ex.mapLookup(st, mt, ex.term(st, base), k)
		return r
	}
	i := ex.term(st, v.eval(x.Index))
	switch u := T.Underlying().(type) {
	case *types.Slice:
		s := ex.term(st, base)
		if isSeq(s.sort) {
			return c.SeqNth(s, i)
		}
		return ex.load(st, ex.elemLoc(u.Elem(), c.Sel("sl.arr", s), c.Add(c.Sel("sl.off", s), i)))
	case *types.Basic:
		s := ex.term(st, base)
		if s.op == "str" && i.op == "int" && int(i.ival.Int64()) < len(s.sval) {
			return c.Int(int64(s.sval[i.ival.Int64()]))
		}
		return c.op("str.to_code", SInt, c.op("str.at", SStr, s, i))
	case *types.Array:
		if i.op == "int" {
			return base.(*StructV).f[i.ival.Int64()]
		}
	}
	unsup("spec: index of %s", T)
	return nil
}

// inHeaps evaluates f in another heap state.
func (v *ev) inHeaps(h map[string]*Term, epoch int, f func() Val) Val {
	st := v.st
	sh, se := st.heaps, st.epoch
	cp := make(map[string]*Term, len(h))
	for k, x := range h {
		cp[k] = x
	}
	st.heaps, st.epoch = cp, epoch
	defer func() { st.heaps, st.epoch = sh, se }()
	return f()
}

func (v *ev) call(x *ast.CallExpr) Val {
	ex, c, st := v.ex, v.c(), v.st
	info := v.pkg.TypesInfo
	// conversion
	if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
		from := v.typeOf(x.Args[0])
		a := v.eval(x.Args[0])
		if isNil(from) {
			return ex.zeroVal(tv.Type)
		}
		if _, ok := tv.Type.Underlying().(*types.Interface); ok {
			return v.conv(a, from, tv.Type)
		}
		if isSeqT(tv.Type) {
			s := ex.term(st, a)
			if isSeq(s.sort) {
				return s
			}
			return v.seqOf(s, tv.Type.Underlying().(*types.Slice).Elem())
		}
		return ex.convert(st, a, from, tv.Type)
	}
	if n := gsName(info, x.Fun); n != "" {
		return v.gs(n, x)
	}
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "len":
				return ex.lenOf(st, v.eval(x.Args[0]), v.typeOf(x.Args[0]))
			case "min", "max":
				a, b2 := ex.term(st, v.eval(x.Args[0])), ex.term(st, v.eval(x.Args[1]))
				if b.Name() == "min" {
					return c.Ite(c.Le(a, b2), a, b2)
				}
				return c.Ite(c.Le(a, b2), b2, a)
			}
			unsup("spec: builtin %s", b.Name())
		}
	}
	// methods
	if sx, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
		if sel, ok := info.Selections[sx]; ok && sel.Kind() == types.MethodVal {
			m := sel.Obj().(*types.Func)
			base := v.eval(sx.X)
			T := v.typeOf(sx.X)
			if sv, ok := base.(*setV); ok && m.Name() == "Has" {
				return c.Select(sv.t, ex.term(st, v.eval(x.Args[0])))
			}
			idx := sel.Index()
			if len(idx) > 1 {
				base = v.selectPath(base, T, idx[:len(idx)-1])
				for _, i := range idx[:len(idx)-1] {
					if p, ok := T.Underlying().(*types.Pointer); ok {
						T = p.Elem()
					}
					s, _ := isStruct(T)
					T = s.Field(i).Type()
				}
			}
			sig := m.Type().(*types.Signature)
			args := v.args(x, sig)
			if _, ok := T.Underlying().(*types.Interface); ok {
				t := ex.term(st, base)
				return v.pure(func(s *State) []Outcome {
					return ex.invokeMethod(v.frame(), s, t, T, m, args, nil)
				})
			}
			fn := ex.eng.prog.FuncValue(m)
			rt := sig.Recv().Type()
			_, wantPtr := rt.Underlying().(*types.Pointer)
			_, havePtr := T.Underlying().(*types.Pointer)
			if wantPtr && !havePtr {
				unsup("spec: pointer method on a value")
			}
			if !wantPtr && havePtr {
				base = ex.load(st, ex.locOf(base, T.Underlying().(*types.Pointer).Elem()))
			}
			return v.pureCall(fn, append([]Val{base}, args...))
		}
	}
	var obj *types.Func
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		obj, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		obj, _ = info.Uses[f.Sel].(*types.Func)
	}
	if obj == nil {
		// call of a closure value
		f := v.eval(x.Fun)
		var fv *FuncV
		switch y := f.(type) {
		case *FuncV:
			fv = y
		case *Term:
			fv = ex.closures[y]
		}
		if fv != nil {
			args := v.args(x, fv.fn.Signature)
			return v.pure(func(s *State) []Outcome {
				return ex.callStatic(v.frame(), s, fv.fn, args, fv.binds, nil)
			})
		}
		unsup("spec: call of an unknown function value")
	}
	args := v.args(x, obj.Type().(*types.Signature))
	if sf, ok := ex.eng.specFns[obj]; ok {
		return v.specCall(sf, args)
	}
	return v.pureCall(ex.eng.prog.FuncValue(obj), args)
}

func (v *ev) frame() *Frame {
	if v.fr != nil {
		return v.fr
	}
	return &Frame{fn: v.ex.fn, env: map[ssa.Value]Val{}}
}

func (v *ev) args(x *ast.CallExpr, sig *types.Signature) []Val {
	var out []Val
	n := sig.Params().Len()
	for i := 0; i < n; i++ {
		p := sig.Params().At(i)
		if sig.Variadic() && i == n-1 && !x.Ellipsis.IsValid() {
			// build the variadic slice
			et := p.Type().(*types.Slice).Elem()
			var vals []*Term
			for _, a := range x.Args[i:] {
				vals = append(vals, v.ex.term(v.st, v.evalTo(a, et)))
			}
			out = append(out, v.ex.mkSlice(v.st, et, vals))
			break
		}
		out = append(out, v.evalTo(x.Args[i], p.Type()))
	}
	return out
}

func (ex *Exec) mkSlice(st *State, et types.Type, vals []*Term) *Term {
	c := ex.c
	es := mustSort(et)
	if len(vals) == 0 {
		return c.Zero(SSlice)
	}
	ref := ex.newRef(st)
	cont := c.Zero(SArr(SInt, es))
	for i, t := range vals {
		cont = c.Store(cont, c.Int(int64(i)), t)
	}
	ex.storeH(st, elemKey(et), SArr(SInt, SArr(SInt, es)), ref, cont)
	n := c.Int(int64(len(vals)))
	return c.op("mkslice", SSlice, ref, c.Int(0), n, n)
}

func (v *ev) pureCall(fn *ssa.Function, args []Val) Val {
	return v.pure(func(s *State) []Outcome {
		return v.ex.callStatic(v.frame(), s, fn, args, nil, nil)
	})
}

// pure runs code symbolically without effects and merges the results.
func (v *ev) pure(f func(*State) []Outcome) Val {
	ex, c, st := v.ex, v.c(), v.st
	v.depth++
	defer func() { v.depth-- }()
	if v.depth > 40 {
		unsup("spec: evaluation too deep")
	}
	s := st.clone()
	s.spec, s.boundOK, s.br = true, true, nil
	base := len(s.pc)
	swr, srec := ex.wr, ex.rec
	ex.wr = nil
	outs := f(s)
	ex.wr, ex.rec = swr, srec
	var res Val
	have := false
	maxA := st.alloc
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		if o.panic || len(o.rets) == 0 {
			continue
		}
		if o.st.region != st.region {
			unsup("spec: call with arbitrary effects")
		}
		if o.st.alloc > maxA {
			maxA = o.st.alloc
		}
		isBr := map[int]bool{}
		for _, b := range o.st.br {
			isBr[b.idx] = true
		}
		var conds []*Term
		for _, b := range o.st.br {
			conds = append(conds, b.cond)
		}
		for j := base; j < len(o.st.pc); j++ {
			if isBr[j] {
				continue
			}
			var pre []*Term
			for _, b := range o.st.br {
				if b.idx < j {
					pre = append(pre, b.cond)
				}
			}
			st.assume(c, c.Implies(c.And(pre...), o.st.pc[j]))
		}
		// new objects created by the evaluation stay readable
		for k, h := range o.st.heaps {
			if _, ok := st.heaps[k]; !ok {
				if h.op == "sym" {
					st.heaps[k] = h
				} else if len(outs) == 1 {
					st.heaps[k] = h
				}
			} else if len(outs) == 1 {
				st.heaps[k] = h
			}
		}
		var r Val
		if len(o.rets) == 1 {
			r = o.rets[0]
		} else {
			r = &TupleV{o.rets}
		}
		if !have {
			res, have = r, true
			continue
		}
		res = ex.iteVal(st, c.And(conds...), r, res)
	}
	st.alloc = maxA
	if !have {
		unsup("spec: call has no normal outcome")
	}
	return res
}

// ---- spec functions ---------------------------------------------------------

func (v *ev) specCall(sf *SpecFn, args []Val) Val {
	ex := v.ex
	sig := sf.obj.Type().(*types.Signature)
	if !sf.rec {
		v.depth++
		defer func() { v.depth-- }()
		if v.depth > 60 {
			unsup("spec: too deep")
		}
		n := v.sub()
		n.pkg, n.macros = sf.pkg, nil
		n.env = map[types.Object]Val{}
		for i := 0; i < sig.Params().Len(); i++ {
			n.env[sig.Params().At(i)] = args[i]
		}
		return n.body(sf.decl.Body.List)
	}
	RT := sig.Results().At(0).Type()
	rs := mustSort(RT)
	name := "spec:" + sf.obj.Pkg().Name() + "." + sf.obj.Name()
	keys := ex.specHeaps(v, sf, name)
	var ts []*Term
	for i, a := range args {
		for _, t := range flatten(ex, v.st, a) {
			ts = append(ts, t)
		}
		_ = i
	}
	na := len(ts)
	var hs []*Term
	for _, k := range keys {
		hs = append(hs, ex.H(v.st, k, ex.hsort[k]))
	}
	hs = ex.dropLocals(v.st, ts, hs)
	if old := ex.oldHeaps(sig, args, keys, hs); old != nil {
		hs = old
	}
	ts = append(ts, hs...)
	sn := sanitize(name)
	if _, ok := ex.c.unfold[sn]; !ok {
		ex.c.unfold[sn] = func(a []*Term) *Term {
			s := &State{pcset: map[*Term]bool{}, heaps: map[string]*Term{}, spec: true, boundOK: true, region: 1 << 20}
			for i, k := range keys {
				s.heaps[k] = a[na+i]
			}
			n := &ev{ex: ex, st: s, oldH: s.heaps, env: map[types.Object]Val{}, pkg: sf.pkg}
			rest := a[:na]
			for i := 0; i < sig.Params().Len(); i++ {
				var val Val
				val, rest = ex.unflatten(sig.Params().At(i).Type(), rest)
				n.env[sig.Params().At(i)] = val
			}
			r := ex.term(s, n.body(sf.decl.Body.List))
			ts := []*Term{ex.c.Eq(ex.c.App(name, rs, a...), r)}
			for _, p := range s.pc {
				ts = append(ts, p)
			}
			return ex.c.And(ts...)
		}
	}
	return ex.wrapVal(ex.c.App(name, rs, ts...), RT)
}

// oldHeaps: what is reachable from arguments that existed when the function
// under verification was entered, through heaps whose older part is that of
// the entry, are objects that existed then too. The heaps may be read without
// what was written to newer objects. Returns nil where this does not apply.
func (ex *Exec) oldHeaps(sig *types.Signature, args []Val, keys []string, hs []*Term) []*Term {
	scalar := func(T types.Type) bool {
		b, ok := T.Underlying().(*types.Basic)
		return ok && b.Kind() != types.UnsafePointer
	}
	for i, a := range args {
		if scalar(sig.Params().At(i).Type()) {
			continue
		}
		t, ok := a.(*Term)
		if !ok || !isOldRef(t) && !(t.op == "mkslice" && isOldRef(t.args[0])) {
			return nil
		}
	}
	out := make([]*Term, len(hs))
	changed := false
	for i, h := range hs {
		var keep []*Term
		for done := false; !done; {
			switch h.op {
			case "store":
				k, v := h.args[1], h.args[2]
				if k.sort != SInt {
					return nil
				}
				if _, _, ok := ex.c.allocOf(rootRef(k)); ok && !isOldRef(k) {
					changed = true // a newer object
				} else if isOldRef(v) || v.sort == SStr || v.sort == SBool {
					keep = append(keep, h)
				} else {
					return nil
				}
				h = h.args[0]
			case "hav":
				changed = true
				h = h.args[0]
			default:
				done = true
			}
		}
		if h.op != "sym" || !strings.HasPrefix(h.sval, "H0.") {
			return nil
		}
		for j := len(keep) - 1; j >= 0; j-- {
			h = ex.c.Store(h, keep[j].args[1], keep[j].args[2])
		}
		out[i] = h
	}
	if !changed {
		return nil
	}
	return out
}

// specHeaps: the heaps a recursive spec function reads.
func (ex *Exec) specHeaps(v *ev, sf *SpecFn, name string) []string {
	if ex.specH == nil {
		ex.specH = map[string][]string{}
		ex.specRec = map[string]bool{}
	}
	if k, ok := ex.specH[name]; ok {
		return k
	}
	if ex.specRec[name] {
		return nil
	}
	ex.specRec[name] = true
	saved := ex.rec
	ex.rec = &recorder{read: map[string]bool{}}
	s := &State{pcset: map[*Term]bool{}, heaps: map[string]*Term{}, spec: true, boundOK: true}
	n := &ev{ex: ex, st: s, oldH: s.heaps, env: map[types.Object]Val{}, pkg: sf.pkg}
	sig := sf.obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		n.env[sig.Params().At(i)] = ex.freshVal(s, "specarg", sig.Params().At(i).Type(), false)
	}
	func() {
		defer func() { ex.specRec[name] = false }()
		n.body(sf.decl.Body.List)
	}()
	var keys []string
	for k := range ex.rec.read {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if saved != nil {
		for k := range ex.rec.read {
			saved.read[k] = true
		}
	}
	ex.rec = saved
	// drop the unfolding registered while the heaps were still unknown
	delete(ex.c.unfold, sanitize(name))
	if len(ex.specRec) > 0 {
		for _, b := range ex.specRec {
			if b {
				// part of an outer recursive group: not final yet
				return keys
			}
		}
	}
	ex.specH[name] = keys
	return keys
}

// body evaluates a statement list ending in a return.
func (v *ev) body(stmts []ast.Stmt) Val {
	ex := v.ex
	info := v.pkg.TypesInfo
	if len(stmts) == 0 {
		unsup("spec: missing return")
	}
	rest := stmts[1:]
	switch s := stmts[0].(type) {
	case *ast.ReturnStmt:
		if len(s.Results) != 1 {
			unsup("spec: multiple results")
		}
		// convert to result type is done by the caller's types
		return v.eval(s.Results[0])
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			unsup("spec: assignment")
		}
		n := v.sub()
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			var a, b Val
			switch r := ast.Unparen(s.Rhs[0]).(type) {
			case *ast.TypeAssertExpr:
				t := ex.term(v.st, v.eval(r.X))
				T := v.typeOf(r.Type)
				b = ex.hasType(v.st, t, T)
				if _, ok := T.Underlying().(*types.Interface); ok {
					a = t
				} else {
					a = ex.unIface(v.st, t, T)
				}
			case *ast.IndexExpr:
				mt := v.typeOf(r.X).Underlying().(*types.Map)
				k := ex.term(v.st, v.evalTo(r.Index, mt.Key()))
				var bt *Term
				a, bt = ex.mapLookup(v.st, mt, ex.term(v.st, v.eval(r.X)), k)
				b = bt
			default:
				unsup("spec: two-value definition")
			}
			if o := info.Defs[s.Lhs[0].(*ast.Ident)]; o != nil {
				n.env[o] = a
			}
			if o := info.Defs[s.Lhs[1].(*ast.Ident)]; o != nil {
				n.env[o] = b
			}
			return n.body(rest)
		}
		for i := range s.Lhs {
			o := info.Defs[s.Lhs[i].(*ast.Ident)]
			n.env[o] = v.eval(s.Rhs[i])
		}
		return n.body(rest)
	case *ast.IfStmt:
		n := v
		if s.Init != nil {
			// desugar: init; if
			cp := *s
			cp.Init = nil
			return v.body(append([]ast.Stmt{s.Init, &cp}, rest...))
		}
		cond := n.bool(s.Cond)
		thenS := append(append([]ast.Stmt{}, s.Body.List...), rest...)
		var elseS []ast.Stmt
		switch el := s.Else.(type) {
		case nil:
			elseS = rest
		case *ast.BlockStmt:
			elseS = append(append([]ast.Stmt{}, el.List...), rest...)
		case *ast.IfStmt:
			elseS = append([]ast.Stmt{el}, rest...)
		}
		if cond == ex.c.T {
			return n.body(thenS)
		}
		if cond == ex.c.F {
			return n.body(elseS)
		}
		a := n.body(thenS)
		b := n.body(elseS)
		return ex.iteVal(v.st, cond, a, b)
	case *ast.SwitchStmt:
		// desugar into if chain
		if s.Init != nil {
			unsup("spec: switch init")
		}
		var tag Val
		if s.Tag != nil {
			tag = v.eval(s.Tag)
		}
		var def []ast.Stmt
		type cs struct {
			cond *Term
			body []ast.Stmt
		}
		var cases []cs
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			if cc.List == nil {
				def = cc.Body
				continue
			}
			cond := ex.c.F
			for _, e := range cc.List {
				if s.Tag != nil {
					cond = ex.c.Or(cond, ex.eqVal(v.st, tag, v.eval(e), v.typeOf(s.Tag), v.typeOf(e)))
				} else {
					cond = ex.c.Or(cond, v.bool(e))
				}
			}
			cases = append(cases, cs{cond, cc.Body})
		}
		var rec func(i int) Val
		rec = func(i int) Val {
			if i == len(cases) {
				return v.body(append(append([]ast.Stmt{}, def...), rest...))
			}
			th := append(append([]ast.Stmt{}, cases[i].body...), rest...)
			if cases[i].cond == ex.c.T {
				return v.body(th)
			}
			if cases[i].cond == ex.c.F {
				return rec(i + 1)
			}
			return ex.iteVal(v.st, cases[i].cond, v.body(th), rec(i+1))
		}
		return rec(0)
	case *ast.BlockStmt:
		return v.body(append(append([]ast.Stmt{}, s.List...), rest...))
	}
	unsup("spec: statement %T", stmts[0])
	return nil
}

// ---- gs builtins ------------------------------------------------------------

func (v *ev) seqOf(s *Term, et types.Type) *Term {
	ex, c := v.ex, v.c()
	es := mustSort(et)
	h := ex.H(v.st, elemKey(et), SArr(SInt, SArr(SInt, es)))
	return c.SQ(c.Select(h, c.Sel("sl.arr", s)), c.Sel("sl.off", s), c.Sel("sl.len", s))
}

func (v *ev) constStr(e ast.Expr) string {
	tv := v.pkg.TypesInfo.Types[e]
	if tv.Value == nil {
		unsup("spec: constant string expected")
	}
	s, _ := strconv.Unquote(tv.Value.ExactString())
	return s
}

func (v *ev) constInt(e ast.Expr) int {
	tv := v.pkg.TypesInfo.Types[e]
	if tv.Value == nil {
		if t, ok := v.eval(e).(*Term); ok && t.op == "int" {
			return int(t.ival.Int64())
		}
		unsup("spec: constant expected")
	}
	n, _ := strconv.Atoi(tv.Value.ExactString())
	return n
}

func matchEvent(name, q string) bool {
	return name == q || strings.HasSuffix(name, "."+q)
}

// nth finds the k-th event with a given name.
func (v *ev) nth(q string, k int) (*Event, int, bool) {
	n := 0
	for i, e := range v.trace {
		if e.loop {
			for s := range e.set {
				if matchEvent(s, q) {
					unsup("spec: event %s may occur inside a loop before", q)
				}
			}
			continue
		}
		if matchEvent(e.name, q) {
			if n == k {
				return e, i, true
			}
			n++
		}
	}
	return nil, 0, false
}

func (v *ev) eventVal(x Val, from, to types.Type) Val {
	if types.Identical(from, to) {
		return x
	}
	_, fi := from.Underlying().(*types.Interface)
	_, ti := to.Underlying().(*types.Interface)
	switch {
	case fi && ti:
		return x
	case ti:
		return v.ex.makeIface(v.st, x, from)
	case fi:
		return v.ex.unIface(v.st, v.ex.term(v.st, x), to)
	}
	return x
}

func (v *ev) gs(name string, x *ast.CallExpr) Val {
	ex, c, st := v.ex, v.c(), v.st
	T := v.typeOf(x)
	switch name {
	case "Old":
		return v.inHeaps(v.oldH, v.oldEpoch, func() Val { return v.eval(x.Args[0]) })
	case "Implies":
		a := v.bool(x.Args[0])
		if a == c.F {
			return c.T
		}
		return c.Implies(a, v.bool(x.Args[1]))
	case "Iff":
		return c.Eq(v.bool(x.Args[0]), v.bool(x.Args[1]))
	case "Ite":
		a := v.bool(x.Args[0])
		if a == c.T {
			return v.evalTo(x.Args[1], T)
		}
		if a == c.F {
			return v.evalTo(x.Args[2], T)
		}
		return ex.iteVal(st, a, v.evalTo(x.Args[1], T), v.evalTo(x.Args[2], T))
	case "Forall", "Exists":
		fl, ok := ast.Unparen(x.Args[0]).(*ast.FuncLit)
		if !ok {
			unsup("spec: quantifier over a non-literal")
		}
		sig := v.typeOf(fl).(*types.Signature)
		n := v.sub()
		var bvs []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			b := c.BV(p.Name(), mustSort(p.Type()))
			bvs = append(bvs, b)
			n.env[p] = b
		}
		body := ex.term(st, n.body(fl.Body.List))
		if name == "Exists" {
			return c.Not(c.Forall(bvs, c.Not(body)))
		}
		return c.Forall(bvs, body)
	case "Fresh":
		t := ex.term(st, v.eval(x.Args[0]))
		switch t.sort {
		case SSlice:
			t = c.Sel("sl.arr", t)
		case SIface:
			t = c.Sel("iref.ref", t)
		}
		if v.fresh != nil {
			return c.Lt(v.fresh, t)
		}
		return c.Lt(c.Sym("ALLOC0", SInt), t)
	case "SameArray":
		return c.Eq(c.Sel("sl.arr", ex.term(st, v.eval(x.Args[0]))), c.Sel("sl.arr", ex.term(st, v.eval(x.Args[1]))))
	case "SameType":
		return c.Eq(c.TagOf(ex.term(st, v.eval(x.Args[0]))), c.TagOf(ex.term(st, v.eval(x.Args[1]))))
	case "TypeString":
		return ex.typeString(c.TagOf(ex.term(st, v.eval(x.Args[0]))))
	case "PkgPath":
		return ex.typePkg(c.TagOf(ex.term(st, v.eval(x.Args[0]))))
	case "IsType":
		// IsType[T](x)
		TT := v.typeArg(x, 0)
		return ex.hasType(st, ex.term(st, v.eval(x.Args[0])), TT)
	case "Has":
		mt := v.typeOf(x.Args[0]).Underlying().(*types.Map)
		_, ok := ex.mapLookup(st, mt, ex.term(st, v.eval(x.Args[0])), ex.term(st, v.evalTo(x.Args[1], mt.Key())))
		return ok
	case "Lines":
		return c.Lines(v.seqOf(ex.term(st, v.eval(x.Args[0])), types.Typ[types.String]))
	case "SeqOf":
		return v.seqOf(ex.term(st, v.eval(x.Args[0])), T.Underlying().(*types.Slice).Elem())
	case "Cat":
		var ps []*Term
		for _, a := range x.Args {
			ps = append(ps, ex.term(st, v.eval(a)))
		}
		return c.Concat(ps...)
	case "Unit":
		return c.SeqUnit(ex.term(st, v.evalTo(x.Args[0], T.Underlying().(*types.Slice).Elem())))
	case "Empty":
		return c.SeqEmpty(mustSort(T.Underlying().(*types.Slice).Elem()))
	case "SeqLen":
		return c.SeqLen(ex.term(st, v.eval(x.Args[0])))
	case "Nth":
		return c.SeqNth(ex.term(st, v.eval(x.Args[0])), ex.term(st, v.eval(x.Args[1])))
	case "Count":
		q := v.constStr(x.Args[0])
		n := c.Int(0)
		for i, e := range v.trace {
			if e.loop {
				for s := range e.set {
					if matchEvent(s, q) {
						u := c.Sym(fmt.Sprintf("cnt!%d!%s", i, q), SInt)
						st.assume(c, c.Le(c.Int(0), u))
						n = c.Add(n, u)
						break
					}
				}
				continue
			}
			if matchEvent(e.name, q) {
				n = c.Add(n, c.Int(1))
			}
		}
		return n
	case "CountOf":
		f := ex.term(st, v.eval(x.Args[0]))
		n := c.Int(0)
		for i, e := range v.trace {
			if e.loop {
				if e.set["dyn"] {
					u := c.Sym(fmt.Sprintf("cntof!%d", i), SInt)
					st.assume(c, c.Le(c.Int(0), u))
					n = c.Add(n, u)
				}
				continue
			}
			if e.name == "dyn" {
				n = c.Add(n, c.Ite(c.Eq(ex.term(st, e.args[0]), f), c.Int(1), c.Int(0)))
			}
		}
		return n
	case "Arg":
		e, _, ok := v.nth(v.constStr(x.Args[0]), v.constInt(x.Args[1]))
		if !ok {
			return ex.freshVal(st, "noevent", T, false)
		}
		i := v.constInt(x.Args[2])
		if i >= len(e.args) {
			unsup("spec: event %s has no argument %d", e.name, i)
		}
		return v.eventVal(e.args[i], e.argT[i], T)
	case "Ret":
		e, _, ok := v.nth(v.constStr(x.Args[0]), v.constInt(x.Args[1]))
		i := v.constInt(x.Args[2])
		if !ok || i >= len(e.rets) {
			return ex.freshVal(st, "noevent", T, false)
		}
		return v.eventVal(e.rets[i], e.retT[i], T)
	case "At", "After":
		e, _, ok := v.nth(v.constStr(x.Args[0]), v.constInt(x.Args[1]))
		if !ok {
			return ex.freshVal(st, "noevent", T, false)
		}
		h := e.heaps
		ep := e.epoch
		if name == "After" {
			h, ep = e.post, e.postEpoch
			if h == nil {
				return ex.freshVal(st, "noevent", T, false)
			}
		}
		return v.inHeaps(h, ep, func() Val { return v.eval(x.Args[2]) })
	case "Before":
		_, i, ok1 := v.nth(v.constStr(x.Args[0]), v.constInt(x.Args[1]))
		_, j, ok2 := v.nth(v.constStr(x.Args[2]), v.constInt(x.Args[3]))
		return c.Bool(ok1 && ok2 && i < j)
	case "Written":
		// everything written to a writer so far
		w := ex.term(st, v.evalTo(x.Args[0], types.NewInterfaceType(nil, nil)))
		return ex.written(st, w)
	case "Same":
		return ex.sameVal(st, v.eval(x.Args[0]), v.eval(x.Args[1]))
	case "RequestURL", "RequestBody":
		// what http.NewRequest was given
		r := ex.term(st, v.eval(x.Args[0]))
		if name == "RequestBody" {
			return ex.ghostGet(st, "reqbody", SIface, r)
		}
		T := v.typeOf(x.Args[0]).Underlying().(*types.Pointer).Elem()
		s, _ := isStruct(T)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "URL" {
				return ex.ghostGet(st, "url", SStr, ex.term(st, ex.load(st, ex.fieldLoc(T, s, i, r))))
			}
		}
		unsup("spec: RequestURL of a %s", T)
	case "Status":
		// the status sent on a response writer so far, 0 if none
		w := ex.term(st, v.evalTo(x.Args[0], types.NewInterfaceType(nil, nil)))
		return c.Select(ex.H(st, "GH:status", SArr(SIface, SInt)), w)
	case "StrOf":
		return ex.bytesToStr(st, ex.term(st, v.eval(x.Args[0])))
	case "BufferContent":
		return c.Select(ex.H(st, "GH:buf", SArr(SInt, SStr)), ex.term(st, v.eval(x.Args[0])))
	case "UF":
		// UF[T]("name", args...): an uninterpreted function shared with the
		// model of a dependency
		var ts []*Term
		for _, a := range x.Args[1:] {
			ta := v.typeOf(a)
			if b, ok := ta.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				ta = types.Default(ta)
			}
			ts = append(ts, flatten(ex, st, v.evalTo(a, ta))...)
		}
		return ex.funVal(st, v.constStr(x.Args[0]), T, ts...)
	}
	unsup("spec: gs.%s", name)
	return nil
}

func (v *ev) typeArg(x *ast.CallExpr, i int) types.Type {
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.IndexExpr:
		return v.typeOf(f.Index)
	case *ast.IndexListExpr:
		return v.typeOf(f.Indices[i])
	}
	unsup("spec: type argument")
	return nil
}

// typeString: reflect.Type.String of a tag.
func (ex *Exec) typeString(tag *Term) *Term {
	c := ex.c
	if tag.op == "int" {
		n := tag.ival.Int64()
		if n == 0 {
			return c.Str("<nil>")
		}
		return c.Str(shortType(ex.eng.tags.Type(n)))
	}
	if tag.op == "ite" {
		return c.Ite(tag.args[0], ex.typeString(tag.args[1]), ex.typeString(tag.args[2]))
	}
	return c.App("typestr", SStr, tag)
}

func (ex *Exec) typePkg(tag *Term) *Term {
	c := ex.c
	if tag.op == "int" {
		n := tag.ival.Int64()
		if n == 0 {
			return c.Str("")
		}
		if nt, ok := ex.eng.tags.Type(n).(*types.Named); ok && nt.Obj().Pkg() != nil {
			return c.Str(nt.Obj().Pkg().Path())
		}
		return c.Str("")
	}
	if tag.op == "ite" {
		return c.Ite(tag.args[0], ex.typePkg(tag.args[1]), ex.typePkg(tag.args[2]))
	}
	return c.App("typepkg", SStr, tag)
}

func (ex *Exec) written(st *State, w *Term) *Term {
	return ex.c.Select(ex.H(st, "GH:out", SArr(SIface, SStr)), w)
}

// evalInv evaluates a loop invariant template.
func (ex *Exec) evalInv(inv *Clause, vs []Val, st *State) *Term {
	v := ex.clauseEv(inv, st, nil)
	for i, h := range inv.holes {
		v.env[h] = vs[i]
	}
	return ex.term(st, v.eval(inv.expr))
}

// clauseEv: evaluator for a clause of the contract under verification.
func (ex *Exec) clauseEv(cl *Clause, st *State, rets []Val) *ev {
	ct := cl.ct
	v := &ev{ex: ex, st: st, env: map[types.Object]Val{}, pkg: ct.pkg, macros: ct.macros, trace: st.trace, results: rets}
	v.oldH, v.oldEpoch = ex.entry.heaps, ex.entry.epoch
	for i, p := range ct.params {
		v.env[p] = ex.entryArgs[i]
	}
	for i, p := range ct.results {
		if i < len(rets) {
			v.env[p] = rets[i]
		}
	}
	return v
}

// applyContract: a call is described by the callee's contract only.
func (ex *Exec) applyContract(fr *Frame, st *State, ct *Contract, args []Val, ci *callInfo) []Outcome {
	c := ex.c
	ex.note(&ex.usedCt, ct.target)
	mk := func(rets []Val, oldH map[string]*Term, oldE int) *ev {
		v := &ev{ex: ex, fr: fr, st: st, env: map[types.Object]Val{}, pkg: ct.pkg, macros: ct.macros, oldH: oldH, oldEpoch: oldE}
		for i, p := range ct.params {
			v.env[p] = args[i]
		}
		for i, p := range ct.results {
			if i < len(rets) {
				v.env[p] = rets[i]
			}
		}
		return v
	}
	for _, cl := range ct.requires {
		g := mk(nil, st.heaps, st.epoch).bool(cl.expr)
		if !st.spec {
			ex.oblige(st, "precondition", "precondition of "+ct.target+": "+cl.name, g)
		}
	}
	oldH, oldE := st.snapHeaps(), st.epoch
	born, npc := c.n, len(st.pc)
	mark := c.Add(c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt), c.Int(st.alloc))
	var rets []Val
	res := ct.fn.Signature.Results()
	if ct.pure {
		var ts []*Term
		for i, a := range args {
			ts = append(ts, flatten(ex, st, a)...)
			_ = i
		}
		for i := 0; i < res.Len(); i++ {
			nm := "fn:" + ct.fn.String()
			if i > 0 {
				nm += fmt.Sprintf("#%d", i)
			}
			if len(ts) == 0 {
				ts = append(ts, c.Int(0))
			}
			rets = append(rets, ex.funVal(st, nm, res.At(i).Type(), ts...))
		}
	} else {
		if st.spec && (ct.assignsAll || len(ct.assigns) > 0) {
			unsup("spec: call of %s, which has effects", ct.target)
		}
		if ct.assignsAll || ct.anyFrame {
			if st.spec && ct.anyFrame {
				unsup("spec: call of %s, whose frame is not specified", ct.target)
			}
			if !st.spec {
				ex.havocAll(fr, st)
			}
		} else {
			var hs []func()
			for _, cl := range ct.assigns {
				hs = append(hs, ex.havocTarget(mk(nil, oldH, oldE), cl.expr))
			}
			for _, h := range hs {
				h()
			}
			for _, cl := range ct.writers {
				ex.havocWriter(st, ex.term(st, mk(nil, oldH, oldE).evalTo(cl.expr, anyType)))
			}
			for _, cl := range ct.decodes {
				ex.havocValue(st, ex.term(st, mk(nil, oldH, oldE).evalTo(cl.expr, anyType)), 3)
			}
		}
		for i := 0; i < res.Len(); i++ {
			rets = append(rets, ex.freshVal(st, ct.fn.Name(), res.At(i).Type(), false))
		}
		ex.bump(st, res, rets)
	}
	if set := ex.eng.staticEmits(ct.fn); len(set) > 0 && !st.spec && !ct.trusted {
		st.event(&Event{loop: true, set: set, name: "call " + ct.target})
	}
	for _, cl := range ct.ensures {
		if cl.trace {
			continue
		}
		v := mk(rets, oldH, oldE)
		v.fresh = mark
		if !st.assume(c, v.bool(cl.expr)) {
			return nil
		}
	}
	if !st.spec && !ex.solveNew(st, rets, born, npc) {
		return nil
	}
	return []Outcome{{st: st, rets: rets}}
}

// solveNew replaces the symbols a call introduced by what its contract says
// they are equal to. The equations stay in the path condition.
func (ex *Exec) solveNew(st *State, rets []Val, born, npc int) bool {
	c := ex.c
	m := ex.solved(st.pc[npc:], func(a *Term) bool { return a.id > born && !strings.HasPrefix(a.sval, "ALLOC") })
	if len(m) == 0 {
		return true
	}
	for i, r := range rets {
		if t, ok := r.(*Term); ok {
			rets[i] = c.Subst(t, m)
		}
	}
	for k, h := range st.heaps {
		st.heaps[k] = c.Subst(h, m)
	}
	for _, f := range append([]*Term(nil), st.pc[npc:]...) {
		if !st.assume(c, c.Subst(f, m)) {
			return false
		}
	}
	return true
}

// tidy simplifies what is known of the head of a loop: the symbols standing
// for what the loop wrote are replaced by what the invariants equate them to,
// and clauses that do not apply on this path are dropped.
func (ex *Exec) tidy(st *State, npc int) {
	c := ex.c
	facts := append([]*Term(nil), st.pc[npc:]...)
	for round := 0; round < 2; round++ {
		for _, f := range facts {
			delete(st.pcset, f)
		}
		st.pc = st.pc[:npc:npc]
		var ors []*Term
		for _, f := range facts {
			if f.op == "or" {
				ors = append(ors, f)
			} else {
				st.assume(c, f)
			}
		}
		for _, f := range ors {
			st.assume(c, ex.given(st.pc, f))
		}
		if round == 1 {
			return
		}
		m := ex.solved(st.pc[npc:], func(a *Term) bool { return strings.HasPrefix(a.sval, "hv!") })
		if len(m) == 0 {
			return
		}
		for k, h := range st.heaps {
			st.heaps[k] = c.Subst(h, m)
		}
		facts = nil
		for _, f := range st.pc[npc:] {
			facts = append(facts, c.Subst(f, m))
		}
		for _, f := range st.pc[npc:] {
			delete(st.pcset, f)
		}
	}
}

// solved: symbols that equations among the facts express by other terms.
func (ex *Exec) solved(facts []*Term, may func(*Term) bool) map[*Term]*Term {
	c := ex.c
	m := map[*Term]*Term{}
	var order []*Term
	for _, f := range facts {
		if f.op != "=" {
			continue
		}
		for k := 0; k < 2; k++ {
			a, b := f.args[k], f.args[1-k]
			if a.op != "sym" || m[a] != nil || !may(a) {
				continue
			}
			b = c.Subst(b, m)
			if termMentions(b, a, map[*Term]bool{}) {
				continue
			}
			for _, x := range order {
				m[x] = c.Subst(m[x], map[*Term]*Term{a: b})
			}
			m[a] = b
			order = append(order, a)
			break
		}
	}
	return m
}

func termMentions(t, x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] || t.id < x.id {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if termMentions(a, x, seen) {
			return true
		}
	}
	return false
}

// havocTarget makes the object denoted by an assigns clause arbitrary.
func (ex *Exec) havocTarget(v *ev, e ast.Expr) func() {
	st, c := v.st, ex.c
	T := v.typeOf(e)
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		l := ex.locOf(v.eval(e), u.Elem())
		return func() { ex.store(st, l, ex.freshVal(st, "assigned", u.Elem(), false)) }
	case *types.Map:
		m := ex.term(st, v.eval(e))
		ks, dk := ex.mapKeys(u)
		return func() {
			ex.storeH(st, dk, SArr(SInt, SArr(ks, SBool)), m, c.Fresh("dom", SArr(ks, SBool)))
			for _, l := range leavesOf(u.Elem()) {
				hk := "MV:" + string(ks) + ":" + typeKey(u.Elem()) + l.path
				ex.storeH(st, hk, SArr(SInt, SArr(ks, l.sort)), m, c.Fresh("val", SArr(ks, l.sort)))
			}
		}
	case *types.Slice:
		s := ex.term(st, v.eval(e))
		es := mustSort(u.Elem())
		return func() {
			ex.storeH(st, elemKey(u.Elem()), SArr(SInt, SArr(SInt, es)), c.Sel("sl.arr", s), c.Fresh("elems", SArr(SInt, es)))
		}
	default:
		unsup("assigns %s", T)
	}
	return nil
}

var anyType = types.NewInterfaceType(nil, nil)

// writerHeader: the header map of a response writer.
func (ex *Exec) writerHeader(w *Term) *Term { return ex.c.App("headerOf", SInt, w) }

// headerKeys: the heap keys of http.Header maps.
func (ex *Exec) headerKeys() (dom string, ds Sort, vals []string, vs []Sort) {
	mt := types.NewMap(types.Typ[types.String], types.NewSlice(types.Typ[types.String]))
	ks, dk := ex.mapKeys(mt)
	dom, ds = dk, SArr(SInt, SArr(ks, SBool))
	for _, l := range leavesOf(mt.Elem()) {
		vals = append(vals, "MV:"+string(ks)+":"+typeKey(mt.Elem())+l.path)
		vs = append(vs, SArr(SInt, SArr(ks, l.sort)))
	}
	return
}

// havocWriter: the callee may have answered through w.
func (ex *Exec) havocWriter(st *State, w *Term) {
	c := ex.c
	for k, s := range map[string]Sort{"GH:out": SStr, "GH:status": SInt} {
		ex.setH(st, k, c.Store(ex.H(st, k, SArr(SIface, s)), w, c.Fresh("answered", s)))
	}
	h := ex.writerHeader(w)
	dk, ds, vk, vs := ex.headerKeys()
	_, e := arrElem(ds)
	ex.storeH(st, dk, ds, h, c.Fresh("hdom", e))
	for i := range vk {
		_, e := arrElem(vs[i])
		ex.storeH(st, vk[i], vs[i], h, c.Fresh("hval", e))
	}
}

// sameVal: equality of two values, field by field for structs.
func (ex *Exec) sameVal(st *State, a, b Val) *Term {
	c := ex.c
	x, ok1 := a.(*StructV)
	y, ok2 := b.(*StructV)
	if ok1 && ok2 {
		if len(x.f) != len(y.f) {
			unsup("spec: gs.Same of different types")
		}
		r := c.T
		for i := range x.f {
			r = c.And(r, ex.sameVal(st, x.f[i], y.f[i]))
		}
		return r
	}
	return c.Eq(ex.term(st, a), ex.term(st, b))
}
