package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// initFacts: package variables and fields of the objects they point to, whose
// only writes are in the package initialisation. Unexported ones cannot be
// written by anybody else, so reading them yields their initial value at any
// later time.
type initFacts struct {
	constGlob map[string]ssa.Value // heap key of the variable -> initial value
	fields    map[*ssa.Alloc]map[string]ssa.Value
	names     map[ssa.Value]string
	maps      map[*ssa.MakeMap][]*ssa.MapUpdate // never changed after initialisation
	mapSym    map[string]*ssa.MakeMap
	bySym     map[string]*ssa.Alloc
	stable    map[string]bool // heap keys written by package initialisation only
}

// moduleFns visits every function of the module.
func (e *Engine) moduleFns(visit func(f *ssa.Function)) {
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil {
			return
		}
		visit(f)
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	for path, p := range e.pkgs {
		if path == specPath || !e.inModule(p.Types) {
			continue
		}
		sp := e.ssaPkg(path)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				rec(x)
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					rec(e.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
}

func isInitFn(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func (e *Engine) computeInit() {
	fx := &initFacts{constGlob: map[string]ssa.Value{}, fields: map[*ssa.Alloc]map[string]ssa.Value{}, names: map[ssa.Value]string{}, maps: map[*ssa.MakeMap][]*ssa.MapUpdate{}, mapSym: map[string]*ssa.MakeMap{}, bySym: map[string]*ssa.Alloc{}, stable: map[string]bool{}}
	e.inits = fx
	globW := map[*ssa.Global]int{} // writes or address uses anywhere
	globInit := map[*ssa.Global]ssa.Value{}
	globInitOnly := map[*ssa.Global]bool{}
	mapOut := map[*ssa.Global]bool{} // the map may be changed or handed on
	fieldOut := map[string]bool{}    // written or address taken outside package initialisation
	fieldN := map[string]int{}       // writes in package initialisation
	fieldSeen := map[string]types.Type{}
	noteStructStore := func(T types.Type, out bool) {
		if s, ok := T.Underlying().(*types.Struct); ok {
			if n, ok := T.(*types.Named); ok && e.inModule(n.Obj().Pkg()) {
				for i := 0; i < s.NumFields(); i++ {
					if out {
						fieldOut[fieldKey(T, "."+s.Field(i).Name())] = true
					} else {
						fieldN[fieldKey(T, "."+s.Field(i).Name())] += 2
					}
				}
			}
		}
	}
	e.moduleFns(func(f *ssa.Function) {
		ini := isInitFn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					noteStructStore(s.Val.Type(), !ini)
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && !readOnly(u) {
						mapOut[g] = true
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.Store:
						if x.Addr == g && f.Name() == "init" && ini {
							globW[g]++
							globInit[g] = x.Val
							continue
						}
						if x.Addr == g && ini {
							globW[g] += 2
							globInitOnly[g] = true
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
					}
					globW[g] += 100
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer)
				T := pt.Elem()
				st, _ := T.Underlying().(*types.Struct)
				k := fieldKey(T, "."+st.Field(fa.Field).Name())
				fieldSeen[k] = T
				for _, u := range *fa.Referrers() {
					switch x := u.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == fa && ini {
							fieldN[k]++
							al, isAl := fa.X.(*ssa.Alloc)
							if isAl && f.Name() == "init" {
								if fx.fields[al] == nil {
									fx.fields[al] = map[string]ssa.Value{}
								}
								fx.fields[al][k] = x.Val
							} else {
								fieldN[k] += 1000 // initialised elsewhere too: no constant value
							}
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					fieldOut[k] = true
				}
			}
		}
	})
	for g, v := range globInit {
		if globW[g] == 1 && g.Object() != nil && !g.Object().Exported() {
			fx.constGlob["G:"+fnKey(g.String())] = v
			if m, ok := v.(*ssa.MakeMap); ok && !mapOut[g] {
				if ups := literal(m); ups != nil {
					fx.maps[m] = ups
				}
			}
		}
	}
	for g, n := range globW {
		if n < 100 && g.Object() != nil && !g.Object().Exported() {
			fx.stable["G:"+fnKey(g.String())] = true
		}
	}
	for k, T := range fieldSeen {
		n, ok := T.(*types.Named)
		if !ok || !e.inModule(n.Obj().Pkg()) || fieldOut[k] {
			continue
		}
		fn := k[strings.LastIndexByte(k, '.')+1:]
		if !token.IsExported(fn) {
			fx.stable[k] = true
		}
	}
	for al, m := range fx.fields {
		for k := range m {
			if !fx.stable[k] || fieldN[k] >= 1000 {
				delete(m, k)
			}
		}
		_ = al
	}
}

// readOnly: the map is only looked up, ranged over or counted.
func readOnly(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		return false
	}
	return true
}

// literal: the entries of a map that is filled once, with constant keys.
func literal(m *ssa.MakeMap) []*ssa.MapUpdate {
	ups := []*ssa.MapUpdate{}
	stores := 0
	for _, u := range *m.Referrers() {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			if _, ok := x.Key.(*ssa.Const); !ok || x.Map != m {
				return nil
			}
			ups = append(ups, x)
		case *ssa.Store:
			stores++
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if stores != 1 || len(ups) > 64 {
		return nil
	}
	return ups
}

// litLookup looks a key up in a map that initialisation filled for good.
func (ex *Exec) litLookup(st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	if m.op != "sym" || ex.eng.inits == nil {
		return nil, nil
	}
	ex.eng.mu.Lock()
	mm := ex.eng.inits.mapSym[m.sval]
	ex.eng.mu.Unlock()
	if mm == nil {
		return nil, nil
	}
	if _, str := mt.Elem().Underlying().(*types.Struct); str {
		return nil, nil
	}
	c := ex.c
	val, ok := ex.term(st, ex.zeroVal(mt.Elem())), c.F
	for _, u := range ex.eng.inits.maps[mm] {
		w := ex.initVal(st, u.Value)
		kv := ex.initVal(st, u.Key)
		if w == nil || kv == nil {
			return nil, nil
		}
		hit := c.Eq(k, ex.mapKey(st, kv))
		val = c.Ite(hit, ex.term(st, w), val)
		ok = c.Or(hit, ok)
	}
	return ex.wrapVal(val, mt.Elem()), ok
}

// initSym: the reference of an object allocated by package initialisation.
func (ex *Exec) initSym(al ssa.Value) *Term {
	e := ex.eng
	e.mu.Lock()
	n, ok := e.inits.names[al]
	if !ok {
		n = fmt.Sprintf("INIT%d", len(e.inits.names)+1)
		e.inits.names[al] = n
		switch x := al.(type) {
		case *ssa.Alloc:
			e.inits.bySym[n] = x
		case *ssa.MakeMap:
			e.inits.mapSym[n] = x
		}
	}
	e.mu.Unlock()
	t := ex.c.Sym(n, SInt)
	t.old = true
	return t
}

// initRefs: every object of the package initialisation that is reachable
// through a constant variable (in a fixed order).
func (ex *Exec) assumeInit(st *State) {
	c := ex.c
	var syms []*Term
	for k, v := range ex.eng.inits.constGlob {
		_ = k
		switch x := v.(type) {
		case *ssa.Alloc:
			syms = append(syms, ex.initSym(x))
		case *ssa.MakeMap:
			if ex.eng.inits.maps[x] != nil {
				syms = append(syms, ex.initSym(x))
			}
		}
	}
	// deterministic order
	for i := range syms {
		for j := i + 1; j < len(syms); j++ {
			if syms[j].sval < syms[i].sval {
				syms[i], syms[j] = syms[j], syms[i]
			}
		}
	}
	a0 := c.Sym("ALLOC0", SInt)
	for i, s := range syms {
		// numbered in order of allocation: distinct and not nil
		if i == 0 {
			st.assume(c, c.Lt(c.Int(0), s))
		} else {
			st.assume(c, c.Lt(syms[i-1], s))
		}
	}
	if n := len(syms); n > 0 {
		st.assume(c, c.Le(syms[n-1], a0))
	}
}

// initVal evaluates an initial value; nil when it is not of a simple form.
func (ex *Exec) initVal(st *State, v ssa.Value) (r Val) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		f := &FuncV{fn: x}
		ex.term(st, f)
		return f
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			f := &FuncV{fn: x.Fn.(*ssa.Function)}
			ex.term(st, f)
			return f
		}
	case *ssa.Alloc:
		return ex.initSym(x)
	case *ssa.MakeMap:
		if ex.eng.inits.maps[x] != nil {
			return ex.initSym(x)
		}
	case *ssa.MakeInterface:
		if y := ex.initVal(st, x.X); y != nil {
			return ex.makeIface(st, y, x.X.Type())
		}
	case *ssa.ChangeType:
		return ex.initVal(st, x.X)
	case *ssa.Call:
		cc := x.Common()
		var args []Val
		nm := ""
		if cc.IsInvoke() {
			nm = shortName(cc.Method.FullName())
			args = append(args, ex.initVal(st, cc.Value))
		} else if f := cc.StaticCallee(); f != nil {
			nm = shortName(f.String())
		}
		if nm != "reflect.TypeOf" && nm != "reflect.Type.Elem" {
			return nil
		}
		for _, a := range cc.Args {
			args = append(args, ex.initVal(st, a))
		}
		for _, a := range args {
			if a == nil {
				return nil
			}
		}
		outs := intrinsics[nm](ex, nil, st, args, &callInfo{name: nm, sig: cc.Signature()})
		if len(outs) == 1 && len(outs[0].rets) == 1 {
			return outs[0].rets[0]
		}
	}
	return nil
}

// initRead: the value of a location that only package initialisation writes.
func (ex *Exec) initRead(st *State, l *Loc) Val {
	fx := ex.eng.inits
	if fx == nil {
		return nil
	}
	switch l.kind {
	case "cell":
		if v, ok := fx.constGlob[l.key]; ok && l.ref.op == "int" && l.ref.ival.Sign() < 0 {
			return ex.initVal(st, v)
		}
	case "field":
		if !fx.stable[l.key] {
			return nil
		}
		var get func(ref *Term) *Term
		var fv *FuncV
		get = func(ref *Term) *Term {
			switch ref.op {
			case "ite":
				a, b := get(ref.args[1]), get(ref.args[2])
				if a == nil || b == nil {
					return nil
				}
				return ex.c.Ite(ref.args[0], a, b)
			case "sym":
				ex.eng.mu.Lock()
				al := fx.bySym[ref.sval]
				ex.eng.mu.Unlock()
				if al == nil {
					return nil
				}
				v, ok := fx.fields[al][l.key]
				if !ok {
					if !fx.noInitWrites(l.key) {
						return nil
					}
					return ex.term(st, ex.zeroVal(l.typ))
				}
				w := ex.initVal(st, v)
				if w == nil {
					return nil
				}
				if f, ok := w.(*FuncV); ok {
					fv = f
				}
				return ex.term(st, w)
			}
			return nil
		}
		t := get(l.ref)
		if t == nil {
			return nil
		}
		if fv != nil && l.ref.op == "sym" {
			return fv
		}
		return ex.wrapVal(t, l.typ)
	}
	return nil
}

// noInitWrites: initialisation writes the field only in the recorded literals.
func (fx *initFacts) noInitWrites(key string) bool {
	for _, m := range fx.fields {
		if _, ok := m[key]; ok {
			return true
		}
	}
	return false
}

// initFn resolves "variable.field" to the function the package initialisation
// stores there.
func (e *Engine) initFn(p *packages.Package, target string) *ssa.Function {
	i := strings.IndexByte(target, '.')
	sp := e.ssaPkg(p.PkgPath)
	if i < 0 || sp == nil {
		return nil
	}
	g, _ := sp.Members[target[:i]].(*ssa.Global)
	if g == nil {
		return nil
	}
	al, _ := e.inits.constGlob["G:"+fnKey(g.String())].(*ssa.Alloc)
	for k, v := range e.inits.fields[al] {
		if strings.HasSuffix(k, target[i:]) {
			switch x := v.(type) {
			case *ssa.Function:
				return x
			case *ssa.MakeClosure:
				if len(x.Bindings) == 0 {
					return x.Fn.(*ssa.Function)
				}
			}
		}
	}
	return nil
}
