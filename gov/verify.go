package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// saturate adds the facts needed by the terms of a query: unfoldings of
// recursive specification functions, axioms of modelled dependencies,
// implementation facts of interface tests and the order of allocations.
func (ex *Exec) saturate(as []*Term, goal *Term, fuel int) []*Term {
	ex.satMore = false
	c := ex.c
	out := append([]*Term(nil), ex.instantiate(as, goal)...)
	seen := map[*Term]bool{}
	var frontier []*Term
	var apps []*Term
	var tags, nths, sqs, refs []*Term
	impls := map[string]bool{}
	allocs := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			walk(p)
		}
		switch t.op {
		case "app":
			if t.bound {
				if strings.HasPrefix(t.sval, "impl:") {
					impls[t.sval] = true
				}
				return
			}
			if strings.HasPrefix(t.sval, "impl_") || strings.HasPrefix(t.sval, "impl:") {
				impls[t.sval] = true
			}
			apps = append(apps, t)
			if t.sval == "SQ" {
				sqs = append(sqs, t)
			}
		case "select":
			if t.bound {
				break
			}
			h, at, elem := t.args[0], t.args[1], false
			if h.op == "select" && t.sort == SInt {
				h, at, elem = h.args[0], h.args[1], true
			}
			// what existed then refers to what existed then
			for _, base := range ex.refBases(h, nil) {
				b := ex.refTop[base]
				u := c.Select(base, at)
				if elem {
					u = c.Select(u, t.args[1])
				}
				switch u.sort {
				case SInt:
					refs = append(refs, c.Implies(c.Le(at, b), c.Le(u, b)))
				case SSlice:
					refs = append(refs, c.Implies(c.Le(at, b), c.Le(c.Sel("sl.arr", u), b)),
						c.And(c.Le(c.Int(0), c.Sel("sl.len", u)), c.Le(c.Sel("sl.len", u), c.Sel("sl.cap", u)), c.Le(c.Int(0), c.Sel("sl.off", u)),
							c.Or(c.Not(c.Eq(c.Sel("sl.arr", u), c.Int(0))), c.Eq(c.Sel("sl.cap", u), c.Int(0)))))
				}
			}
		case "seq.nth":
			if !t.bound {
				nths = append(nths, t)
			}
		case "sym":
			if strings.HasPrefix(t.sval, "ALLOC") {
				allocs[t.sval] = true
			}
		case "tagof":
			if !t.bound {
				tags = append(tags, t)
			}
		}
	}
	for _, a := range out {
		walk(a)
	}
	walk(goal)
	for round := 0; round < 5; round++ {
		frontier = apps
		apps = nil
		n := 0
		for _, t := range frontier {
			if t.op == "app" {
				if f, ok := c.facts[t.sval]; ok {
					for _, x := range f(t) {
						out = append(out, x)
						walk(x)
						n++
					}
				}
				if u, ok := c.unfold[t.sval]; ok {
					if round >= fuel {
						ex.satMore = true
						continue
					}
					x := ex.unfoldOnce(t, u)
					if x != nil && x != c.T {
						out = append(out, x)
						walk(x)
						n++
					}
				}
			}
		}
		if n == 0 {
			break
		}
	}
	out = append(out, refs...)
	for _, r := range refs {
		walk(r)
	}
	// the elements of a slice's sequence are the slice's elements
	pairs := map[[2]*Term]bool{}
	for _, q := range sqs {
		for _, n := range nths {
			k := [2]*Term{q, n.args[1]}
			if n.args[0].sort != q.sort || n.args[0] == q || pairs[k] || len(pairs) >= 40 {
				continue
			}
			pairs[k] = true
			i := n.args[1]
			out = append(out, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, q.args[2])),
				c.Eq(c.op("seq.nth", seqElem(q.sort), q, i), c.SeqNth(q, i))))
		}
	}
	// interface implementation facts for every known type tag
	for n := range impls {
		iv, ok := ex.eng.implIfaces.Load(n)
		if !ok {
			continue
		}
		it := iv.(*types.Interface)
		var ts []*Term
		ex.eng.tags.mu.Lock()
		all := append([]types.Type(nil), ex.eng.tags.types...)
		ex.eng.tags.mu.Unlock()
		for i, T := range all {
			a := c.App(n, SBool, c.Int(int64(i+1)))
			if types.Implements(T, it) {
				ts = append(ts, a)
			} else {
				ts = append(ts, c.Not(a))
			}
		}
		out = append(out, c.And(ts...))
	}
	for _, t := range tags {
		out = append(out, c.Or(c.Eq(t.args[0], c.INil()), c.Not(c.op("=", SBool, t, c.Int(0)))))
	}
	if len(allocs) > 0 {
		out = append(out, c.Le(c.Int(0), c.Sym("ALLOC0", SInt)))
	}
	return out
}

// refBases: the heaps of references that h is made from.
func (ex *Exec) refBases(h *Term, out []*Term) []*Term {
	if len(out) >= 6 {
		return out
	}
	if ex.refTop[h] != nil {
		return append(out, h)
	}
	switch h.op {
	case "store":
		return ex.refBases(h.args[0], out)
	case "hav":
		return ex.refBases(h.args[2], ex.refBases(h.args[0], out))
	case "ite":
		return ex.refBases(h.args[2], ex.refBases(h.args[1], out))
	}
	return out
}

func (ex *Exec) unfoldOnce(t *Term, u func([]*Term) *Term) (r *Term) {
	if ex.unfolded == nil {
		ex.unfolded = map[*Term]*Term{}
	}
	if x, ok := ex.unfolded[t]; ok {
		return x
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	r = u(t.args)
	ex.unfolded[t] = r
	return r
}

// FnReport is the result of verifying one function.
type FnReport struct {
	learn   fnHint
	Fn      string
	Target  string
	Props   []string
	Obls    []*Obligation
	Problem string // tool limit, if any
	Paths   int
	Ms      int64
	Assumed []string
	Inlined []string
	Opaque  []string
	UsedCts []string
	Bounded bool
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Verify checks a function body against its contract.
func (e *Engine) Verify(ct *Contract, unroll int, budgetMs int64) (rep *FnReport) {
	if h := e.hints[ct.target]; h != nil && unroll == 0 {
		// the forms of the invariants that were found on the committed tree
		// are tried alone first; nothing is taken over from there unchecked
		if rep := e.verifyWith(ct, unroll, budgetMs, false, h); rep.allDischarged() {
			return rep
		}
	}
	return e.verify(ct, unroll, budgetMs, false)
}

func (r *FnReport) allDischarged() bool {
	if r.Problem != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			return false
		}
	}
	return true
}

func (e *Engine) verify(ct *Contract, unroll int, budgetMs int64, inlineAll bool) (rep *FnReport) {
	return e.verifyWith(ct, unroll, budgetMs, inlineAll, nil)
}

func (e *Engine) verifyWith(ct *Contract, unroll int, budgetMs int64, inlineAll bool, hint fnHint) (rep *FnReport) {
	t0 := nowMs()
	c := NewCtx()
	ex := &Exec{eng: e, c: c, sv: &Solver{}, hsort: map[string]Sort{}, locs: map[*Term]*Loc{}, closures: map[*Term]*FuncV{},
		ct: ct, fn: ct.fn, unroll: unroll, maxSteps: 400000, loopInfo: map[*ssa.Function]*loopForest{}, timeout: 5000, deadline: t0 + budgetMs, inlineAll: inlineAll, hint: hint, learn: fnHint{}}
	if unroll == 0 && ct.unroll > 0 {
		ex.unroll = ct.unroll
	}
	rep = &FnReport{Fn: fnKey(ct.fn.String()), Target: ct.target, Props: ct.props, Bounded: ex.unroll > 0}
	defer func() {
		ex.sv.Close()
		for _, s := range ex.pool {
			s.Close()
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				rep.Problem = x.why
			case trialAbort:
				rep.Problem = "internal: trial"
			case hintMiss:
				rep.Problem = "internal: the known forms of the invariants do not suffice"
			default:
				if os.Getenv("GOV_PANIC") != "" {
					panic(r)
				}
				rep.Problem = fmt.Sprintf("internal error: %v", r)
			}
		}
		rep.Obls = ex.obls
		rep.learn = ex.learn
		rep.Ms = nowMs() - t0
		rep.Assumed, rep.Inlined, rep.Opaque, rep.UsedCts = sortedKeys(ex.assumed), sortedKeys(ex.inlined), sortedKeys(ex.opaque), sortedKeys(ex.usedCt)
	}()
	st := &State{pcset: map[*Term]bool{}, heaps: map[string]*Term{}}
	registerAxioms(ex)
	for i, p := range ct.fn.Params {
		nm := p.Name()
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("arg%d", i)
		}
		ex.entryArgs = append(ex.entryArgs, ex.argVal(st, "arg."+nm, p.Type()))
	}
	for _, p := range ct.fn.FreeVars {
		v := ex.argVal(st, "free."+p.Name(), p.Type())
		ex.entryArgs = append(ex.entryArgs, v)
		if t, ok := v.(*Term); ok {
			st.assume(c, c.Not(c.Eq(t, c.Int(0))))
		}
	}
	ex.assumeInit(st)
	ex.entry = st.clone()
	// preconditions
	for _, cl := range ct.requires {
		v := ex.clauseEv(cl, st, nil)
		st.assume(c, v.bool(cl.expr))
	}
	// heaps mentioned by the preconditions belong to the entry state
	for k, h := range st.heaps {
		if _, ok := ex.entry.heaps[k]; !ok {
			ex.entry.heaps[k] = h
		}
	}
	if r := ex.prove(st.pc, c.F, 2000, false); r.Status == "unsat" {
		ex.obls = append(ex.obls, &Obligation{Fn: rep.Fn, Kind: "vacuity", Name: "preconditions are satisfiable", Status: "refuted"})
	} else {
		ex.obls = append(ex.obls, &Obligation{Fn: rep.Fn, Kind: "vacuity", Name: "preconditions are satisfiable", Status: "discharged", Backend: r.Backend})
	}
	ex.entry.alloc = st.alloc
	ex.wr = &writeRec{keys: map[string]bool{}, refs: map[string][]writeRef{}}
	outs := ex.callFn(ct.fn, ex.entryArgs[:len(ct.fn.Params)], ex.entryArgs[len(ct.fn.Params):], st, nil)
	wr := ex.wr
	ex.wr = nil
	n, pan := 0, 0
	for _, o := range outs {
		if o.panic {
			pan++
			for _, cl := range ct.onPanic {
				v := ex.clauseEv(cl, o.st, nil)
				ex.obligeClause(cl, v, o.st, "on panic")
			}
			continue
		}
		n++
		for _, cl := range ct.ensures {
			v := ex.clauseEv(cl, o.st, o.rets)
			ex.obligeClause(cl, v, o.st, "postcondition")
		}
		if !ct.anyFrame && !ct.assignsAll {
			ex.frameCheck(ct, wr, o)
		}
	}
	rep.Paths = n + pan
	// reachability: some path reaches the end
	if n > 0 {
		reach := false
		for _, o := range outs {
			if !o.panic && ex.prove(o.st.pc[:min(len(o.st.pc), len(o.st.pc))], c.F, 1500, false).Status != "unsat" {
				reach = true
				break
			}
		}
		o := &Obligation{Fn: rep.Fn, Kind: "vacuity", Name: "a normal exit is reachable", Status: "discharged", Backend: "z3-new"}
		if !reach {
			o.Status = "refuted"
		}
		ex.obls = append(ex.obls, o)
	}
	if n == 0 && len(ct.ensures) > 0 && len(ct.onPanic) == 0 {
		ex.obls = append(ex.obls, &Obligation{Fn: rep.Fn, Kind: "vacuity", Name: "a normal exit is reachable", Status: "refuted"})
	}
	return rep
}

func (ex *Exec) argVal(st *State, name string, T types.Type) Val {
	return ex.freshVal(st, name, T, true)
}

// obligeClause evaluates and proves one clause in a final state.
func (ex *Exec) obligeClause(cl *Clause, v *ev, st *State, kind string) {
	var g *Term
	why := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					why = u.why
					return
				}
				panic(r)
			}
		}()
		g = v.bool(cl.expr)
	}()
	if g == nil {
		ex.obls = append(ex.obls, &Obligation{Fn: fnKey(ex.fn.String()), Kind: kind, Name: cl.name, Status: "unknown", Detail: why, Path: pathStr(st), Props: cl.props})
		return
	}
	s := st.clone()
	n := len(ex.obls)
	ex.oblige(s, kind, cl.name, g)
	for _, o := range ex.obls[n:] {
		o.Props = cl.props
	}
}

// declared: the objects existing at entry that ct allows to be written.
func (ex *Exec) declared(ct *Contract) map[string][]*Term {
	c := ex.c
	allowed := map[string][]*Term{}
	for _, cl := range ct.assigns {
		v := ex.clauseEv(cl, ex.entry, nil)
		v.st = ex.entry.clone()
		T := v.typeOf(cl.expr)
		add := func(k string, t *Term) { allowed[k] = append(allowed[k], t) }
		switch u := T.Underlying().(type) {
		case *types.Pointer:
			l := ex.locOf(v.eval(cl.expr), u.Elem())
			ex.allowLoc(l, add)
		case *types.Map:
			m := ex.term(v.st, v.eval(cl.expr))
			ks, dk := ex.mapKeys(u)
			add(dk, m)
			for _, lf := range leavesOf(u.Elem()) {
				add("MV:"+string(ks)+":"+typeKey(u.Elem())+lf.path, m)
			}
		case *types.Slice:
			s := ex.term(v.st, v.eval(cl.expr))
			add(elemKey(u.Elem()), c.Sel("sl.arr", s))
		}
	}
	return allowed
}

// frameCheck: only fresh objects and the declared ones are written.
func (ex *Exec) frameCheck(ct *Contract, wr *writeRec, o Outcome) {
	c := ex.c
	a0 := c.Sym("ALLOC0", SInt)
	if wr.all {
		ex.obls = append(ex.obls, &Obligation{Fn: fnKey(ex.fn.String()), Kind: "frame", Name: "writes only what it declares", Status: "unknown", Detail: "arbitrary effects of an unknown function"})
		return
	}
	allowed := ex.declared(ct)
	wst := ex.entry.clone()
	for _, cl := range ct.writers {
		v := ex.clauseEv(cl, o.st, o.rets)
		v.st = wst
		w := ex.term(wst, v.evalTo(cl.expr, anyType))
		allowed["GH:out"] = append(allowed["GH:out"], w)
		allowed["GH:status"] = append(allowed["GH:status"], w)
		dk, _, vk, _ := ex.headerKeys()
		for _, k := range append(vk, dk) {
			allowed[k] = append(allowed[k], ex.writerHeader(w))
		}
	}
	for _, x := range wr.reach {
		ok := false
		for _, cl := range ct.decodes {
			v := ex.clauseEv(cl, o.st, o.rets)
			v.st = wst
			if ex.term(wst, v.evalTo(cl.expr, anyType)) == x {
				ok = true
			}
		}
		if !ok {
			ex.obls = append(ex.obls, &Obligation{Fn: fnKey(ex.fn.String()), Kind: "frame", Name: "decodes only into what it declares", Status: "refuted", Path: pathStr(o.st)})
		}
	}
	for _, k := range []string{"GH:out", "GH:status"} {
		if end, ok := o.st.heaps[k]; ok && wr.keys[k] {
			begin, ok := ex.entry.heaps[k]
			if !ok {
				begin = c.Sym(fmt.Sprintf("H%d.%s", ex.entry.epoch, sanitize(k)), ex.hsort[k])
			}
			if end == begin {
				continue
			}
			r := c.Fresh("frame", SIface)
			g := c.Eq(c.Select(end, r), c.Select(begin, r))
			for _, a := range allowed[k] {
				g = c.Or(g, c.Eq(r, a))
			}
			if g != c.T {
				ex.oblige(o.st.clone(), "frame", "answers only through the declared writer", g)
			}
		}
	}
	var keys []string
	for k := range wr.keys {
		if !strings.HasPrefix(k, "IT:") && !strings.HasPrefix(k, "GH:") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		end, ok := o.st.heaps[k]
		if !ok {
			continue
		}
		begin, ok := ex.entry.heaps[k]
		if !ok {
			begin = c.Sym(fmt.Sprintf("H%d.%s", ex.entry.epoch, sanitize(k)), ex.hsort[k])
		}
		if end == begin {
			continue
		}
		ks, _ := arrElem(ex.hsort[k])
		if ks != SInt {
			continue
		}
		r := c.Fresh("frame", SInt)
		r.old = true
		g := c.Eq(c.Select(end, r), c.Select(begin, r))
		for _, a := range allowed[k] {
			g = c.Or(g, c.Eq(r, a))
		}
		if g == c.T {
			continue
		}
		s := o.st.clone()
		s.assume(c, c.Le(r, a0))
		// r is no part of an object allocated since
		for e := end; e.op == "store"; e = e.args[0] {
			k := e.args[1]
			if root := rootRef(k); root != k {
				if _, _, ok := c.allocOf(root); ok {
					s.assume(c, c.Not(c.Eq(r, k)))
				}
			}
		}
		ex.oblige(s, "frame", "writes to "+fnKey(k)+" stay within the declared frame", g)
	}
}

func (ex *Exec) allowLoc(l *Loc, add func(string, *Term)) {
	if s, ok := isStruct(l.typ); ok {
		ref := ex.locRef(l)
		for i := 0; i < s.NumFields(); i++ {
			ex.allowLoc(ex.fieldLoc(l.typ, s, i, ref), add)
		}
		return
	}
	add(l.key, l.ref)
}

// staticEmits over-approximates the observable calls a function can make.
func (e *Engine) staticEmits(fn *ssa.Function) map[string]bool {
	e.emitMu.Lock()
	defer e.emitMu.Unlock()
	return e.emitsOf(fn)
}

func (e *Engine) emitsOf(fn *ssa.Function) map[string]bool {
	if m, ok := e.emits[fn]; ok {
		return m
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	note := func(n string) {
		if e.isObserved(n) {
			out[n] = true
		}
		for _, x := range intrinsicEmits[n] {
			if e.isObserved(x) {
				out[x] = true
			}
		}
	}
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		note(shortName(f.String()))
		if ct := e.contracts[f]; ct != nil && ct.trusted && f != fn {
			return // somebody else's code: what it calls is its own business
		}
		p := f.Pkg
		if p == nil && f.Origin() != nil {
			p = f.Origin().Pkg
		}
		if p != nil {
			if !e.inModule(p.Pkg) && !inlineAlso[shortName(f.String())] && !inlinePkg(p.Pkg.Path()) {
				return
			}
			e.build(p)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				switch {
				case cc.IsInvoke():
					note(shortName(cc.Method.FullName()))
					// module implementations may run
					for _, T := range e.moduleTypes() {
						if types.Implements(T, cc.Value.Type().Underlying().(*types.Interface)) {
							if m := e.prog.LookupMethod(T, cc.Method.Pkg(), cc.Method.Name()); m != nil {
								walk(m)
							}
						}
					}
				case cc.StaticCallee() != nil:
					walk(cc.StaticCallee())
				default:
					if _, ok := cc.Value.(*ssa.Builtin); !ok {
						note(dynName(in))
					}
				}
			}
		}
	}
	walk(fn)
	delete(out, shortName(fn.String()))
	e.emits[fn] = out
	return out
}

func (e *Engine) moduleTypes() []types.Type {
	if e.modTypes != nil {
		return e.modTypes
	}
	for path, p := range e.pkgs {
		if path == specPath || !e.inModule(p.Types) {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
						continue
					}
					e.modTypes = append(e.modTypes, tn.Type(), types.NewPointer(tn.Type()))
				}
			}
		}
	}
	return e.modTypes
}
