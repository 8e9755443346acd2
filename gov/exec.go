package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Fn      string   `json:"function"`
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Status  string   `json:"status"` // discharged | refuted | unknown
	Backend string   `json:"backend"`
	Ms      int64    `json:"ms"`
	Path    string   `json:"path,omitempty"`
	Model   string   `json:"-"`
	Query   string   `json:"-"`
	Detail  string   `json:"detail,omitempty"`
	Cut     bool     `json:"bounded,omitempty"`
	Props   []string `json:"props,omitempty"` // properties the clause belongs to (empty: all of the contract's)
}

// Exec verifies one function.
type Exec struct {
	clauseFails map[string]int
	skolems     map[*Term]*Term
	skConsts    map[*Term]bool
	inlineAll   bool // bounded mode: callee contracts are not used

	eng       *Engine
	c         *Ctx
	sv        *Solver
	hsort     map[string]Sort
	locs      map[*Term]*Loc
	closures  map[*Term]*FuncV
	rec       *recorder
	wr        *writeRec
	loopDrop  map[*ssa.BasicBlock]map[string]bool
	loopHard  map[string]bool // invariant forms tried in earnest in vain
	forkAt    *ssa.If
	hint      fnHint // forms of the invariants found earlier, nil: none
	learn     fnHint // those found by this run
	forkBoth  map[*ssa.If]int
	pool      []*Solver
	refKeys   map[string]bool // heaps holding references
	refTop    map[*Term]*Term // such a heap at a loop's head: no reference beyond
	fkind     func(*Term, types.Type)
	obls      []*Obligation
	ct        *Contract // contract being verified
	fn        *ssa.Function
	unroll    int // >0: bounded mode, loops are cut after this many iterations
	steps     int
	maxSteps  int
	regions   int
	assumed   map[string]bool
	inlined   map[string]bool
	opaque    map[string]bool
	usedCt    map[string]bool
	specH     map[string][]string
	trial     int
	noFeas    bool
	invDepth  int
	specRec   map[string]bool
	depth     int
	timeout   int
	apps      map[string]bool
	loopInfo  map[*ssa.Function]*loopForest
	entryArgs []Val
	entry     *State
	memoSpec  map[string]Val
	iterN     int
	uncut     int
	deadline  int64
	noPanic   bool
	nret      int
	unfolded  map[*Term]*Term
	dry       int  // proofs are postponed to the final pass
	satMore   bool // the last saturation stopped unfolding early
}

type Outcome struct {
	st    *State
	rets  []Val
	panic bool
}

type deferred struct {
	common *ssa.CallCommon
	fn     Val
	args   []Val
}

type loopCtx struct {
	trial  bool
	l      *loop
	onBack func(fr *Frame, st *State, from *ssa.BasicBlock)
	onExit func(fr *Frame, st *State, from, to *ssa.BasicBlock)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	ctxs   []*loopCtx
	iters  map[*ssa.BasicBlock]int
	depth  int
	caller *Frame
}

func (fr *Frame) clone() *Frame {
	n := &Frame{fn: fr.fn, depth: fr.depth, ctxs: fr.ctxs, caller: fr.caller}
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), fr.defers...)
	if fr.iters != nil {
		n.iters = map[*ssa.BasicBlock]int{}
		for k, v := range fr.iters {
			n.iters[k] = v
		}
	}
	return n
}

func (ex *Exec) note(m *map[string]bool, s string) {
	if *m == nil {
		*m = map[string]bool{}
	}
	(*m)[s] = true
}

// ---- operand evaluation ----------------------------------------------------

func (ex *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		f := &FuncV{fn: x}
		ex.term(st, f)
		return f
	case *ssa.Global:
		return ex.globalAddr(x)
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s of %s not computed", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) constVal(x *ssa.Const) Val {
	T := x.Type()
	if x.Value == nil {
		return ex.zeroVal(T)
	}
	return ex.constTerm(x.Value, T)
}

func (ex *Exec) constTerm(v constant.Value, T types.Type) Val {
	c := ex.c
	if _, isI := T.Underlying().(*types.Interface); isI {
		unsup("constant of interface type")
	}
	s, ok := sortOf(T)
	if !ok {
		unsup("const of type %s", T)
	}
	switch s {
	case SBool:
		return c.Bool(constant.BoolVal(v))
	case SStr:
		return c.Str(constant.StringVal(v))
	case SInt:
		iv := constant.ToInt(v)
		b, _ := new(big.Int).SetString(iv.ExactString(), 10)
		return c.BigInt(b)
	case SFlt:
		return c.App("flt:"+v.ExactString(), SFlt)
	}
	unsup("const %s", v)
	return nil
}

func (ex *Exec) globalAddr(g *ssa.Global) Val {
	T := g.Type().Underlying().(*types.Pointer).Elem()
	ref := ex.c.Int(-ex.eng.globID(g))
	if _, ok := sortOf(T); ok {
		return &Loc{kind: "cell", key: "G:" + fnKey(g.String()), ref: ref, typ: T}
	}
	return &Loc{kind: "cell", ref: ref, typ: T}
}

// ---- path decisions --------------------------------------------------------

func (ex *Exec) decide(st *State, cond *Term) (known, val bool) {
	if cond == ex.c.T {
		return true, true
	}
	if cond == ex.c.F {
		return true, false
	}
	if st.pcset[cond] {
		return true, true
	}
	if st.pcset[ex.c.Not(cond)] {
		return true, false
	}
	return false, false
}

// fork splits a state on a condition, pruning infeasible branches.
func (ex *Exec) fork(st *State, cond *Term) (yes, no *State) {
	if k, v := ex.decide(st, cond); k {
		if v {
			return st, nil
		}
		return nil, st
	}
	a, b := st.clone(), st.clone()
	if ex.invDepth == 0 {
		// within a loop an object may have escaped in another iteration
		a.esc, b.esc = st.escapes().clone(), st.escapes().clone()
	}
	a.br = append(a.br, branchMark{len(a.pc), cond})
	b.br = append(b.br, branchMark{len(b.pc), ex.c.Not(cond)})
	ao := a.assume(ex.c, cond)
	bo := b.assume(ex.c, ex.c.Not(cond))
	// in a loop, a branch once found open both ways is not asked about on
	// every further round: a way that is closed this time fails no obligation
	at := ex.forkAt
	ex.forkAt = nil
	skip := ex.noFeas || at != nil && ex.forkBoth[at] > 1
	if ao && !skip {
		r := ex.quick(st.pc, ex.c.Not(cond), 150)
		if r.Status == "unsat" {
			ao = false
		}
	}
	if bo && ao && !skip {
		r := ex.quick(st.pc, cond, 150)
		if r.Status == "unsat" {
			bo = false
		}
	}
	if at != nil && !skip {
		if ex.forkBoth == nil {
			ex.forkBoth = map[*ssa.If]int{}
		}
		if ao && bo {
			ex.forkBoth[at]++
		} else {
			ex.forkBoth[at] = -1000
		}
	}
	if !ao {
		a = nil
	}
	if !bo {
		b = nil
	}
	return a, b
}

// quick: a cheap attempt, without unfolding specifications.
func (ex *Exec) quick(as []*Term, goal *Term, ms int) Result {
	facts := groundOnly(ex.saturate(as, goal, 0))
	if plain, ok := plainOnly(facts, goal); ok && len(plain) < len(facts) {
		if r := ex.sv.Prove(plain, goal, min(ms, 100), false, false); r.Status == "unsat" {
			return r
		}
	}
	return ex.sv.Prove(facts, goal, ms, false, false)
}

// plain is quick without the facts about texts, where the goal is about none.
func (ex *Exec) plain(as []*Term, goal *Term, ms int) Result {
	facts := groundOnly(ex.saturate(as, goal, 0))
	if plain, ok := plainOnly(facts, goal); ok {
		facts = plain
	}
	return ex.sv.Prove(facts, goal, ms, false, false)
}

// plainOnly drops the facts about texts and sequences, if the goal is not
// about any.
func plainOnly(fs []*Term, goal *Term) ([]*Term, bool) {
	memo := map[*Term]bool{}
	var texts func(t *Term) bool
	texts = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t.sort == SStr || t.op == "app" || strings.HasPrefix(t.op, "seq.") || strings.HasPrefix(string(t.sort), "(Seq") || t.op == "forall"
		for _, a := range t.args {
			r = texts(a) || r
		}
		memo[t] = r
		return r
	}
	if texts(goal) {
		return nil, false
	}
	var out []*Term
	for _, f := range fs {
		if !texts(f) {
			out = append(out, f)
		}
	}
	return out, true
}

// groundOnly drops quantified facts (their instances stay).
func groundOnly(fs []*Term) []*Term {
	memo := map[*Term]bool{}
	for i, f := range fs {
		if hasForall(f, memo) {
			out := append([]*Term(nil), fs[:i]...)
			for _, g := range fs[i+1:] {
				if !hasForall(g, memo) {
					out = append(out, g)
				}
			}
			return out
		}
	}
	return fs
}

// solve tries the quantifier-free part of a query first.
func (ex *Exec) solve(facts []*Term, goal *Term, ms int, fallback, model bool) Result {
	g := groundOnly(facts)
	if len(g) < len(facts) {
		r := ex.sv.Prove(g, goal, min(ms, 2000), false, false)
		if r.Status == "unsat" || ms <= 800 {
			return r
		}
	}
	return ex.sv.Prove(facts, goal, ms, fallback, model)
}

func solveWith(sv *Solver, facts []*Term, goal *Term, ms int, fallback bool) Result {
	g := groundOnly(facts)
	if len(g) < len(facts) {
		r := sv.Prove(g, goal, min(ms, 2000), false, false)
		if r.Status == "unsat" || ms <= 800 {
			return r
		}
	}
	return sv.Prove(facts, goal, ms, fallback, false)
}

// proveMany is prove for several goals, with several solvers at work. Terms
// are built here, one goal after the other; only the solvers run side by side.
func (ex *Exec) proveMany(as []*Term, goals []*Term, ms int, fallback bool) []Result {
	out := make([]Result, len(goals))
	if len(goals) == 0 {
		return out
	}
	type job struct {
		i             int
		goal          *Term
		facts, facts2 []*Term
	}
	const width = 6
	jobs := make(chan job)
	var wg sync.WaitGroup
	for len(ex.pool) < width {
		ex.pool = append(ex.pool, &Solver{})
	}
	for w := 0; w < width; w++ {
		sv := ex.pool[w]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if j.facts2 == nil {
					out[j.i] = solveWith(sv, j.facts, j.goal, ms, fallback)
					continue
				}
				r := solveWith(sv, j.facts, j.goal, min(ms, 200), false)
				if r.Status != "unsat" {
					r = solveWith(sv, j.facts2, j.goal, ms, fallback)
				}
				out[j.i] = r
			}
		}()
	}
	for i, g := range goals {
		as, g := ex.reduce(as, g)
		if g == ex.c.T {
			out[i] = Result{Status: "unsat", Backend: "simplifier"}
			continue
		}
		j := job{i: i, goal: g, facts: ex.saturate(as, g, 1)}
		if ex.satMore {
			j.facts2 = ex.saturate(as, g, 2)
		}
		jobs <- j
	}
	close(jobs)
	wg.Wait()
	return out
}

func (ex *Exec) feasible(st *State) bool {
	r := ex.prove(st.pc, ex.c.F, 1000, false)
	return r.Status != "unsat"
}

func (ex *Exec) step() {
	ex.steps++
	if ex.steps > ex.maxSteps {
		unsup("step budget exhausted")
	}
	if ex.deadline > 0 && ex.steps%64 == 0 && nowMs() > ex.deadline {
		unsup("time budget exhausted")
	}
}

// ---- function execution ----------------------------------------------------

// callFn runs fn's body on all paths.
func (ex *Exec) callFn(fn *ssa.Function, args, binds []Val, st *State, caller *Frame) []Outcome {
	// another verification may be building the package: Build waits for it
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	d := 0
	if caller != nil {
		d = caller.depth + 1
	}
	if d > 24 {
		unsup("inlining too deep at %s", fn)
	}
	// direct recursion without contract
	n := 0
	for f := caller; f != nil; f = f.caller {
		if f.fn == fn {
			n++
		}
	}
	if n > 2 && ex.unroll == 0 {
		unsup("recursion in %s needs a contract", fn)
	}
	if n > 6 {
		st.unro = true
		return nil
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, depth: d, caller: caller}
	if len(args) != len(fn.Params) {
		unsup("arity of %s", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	return ex.block(fr, st, fn.Blocks[0], nil, 0)
}

func (ex *Exec) block(fr *Frame, st *State, b *ssa.BasicBlock, prev *ssa.BasicBlock, start int) []Outcome {
	if start == 0 && prev != nil {
		ex.phis(fr, st, b, prev)
	}
	for i := start; i < len(b.Instrs); i++ {
		ex.step()
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cond := ex.term(st, ex.val(fr, st, in.Cond))
			if ex.invDepth > 0 {
				ex.forkAt = in
			}
			yes, no := ex.fork(st, cond)
			var out []Outcome
			if yes != nil && no != nil && ex.trialLeaves(fr, b) {
				panic(trialAbort{})
			}
			if yes != nil {
				f := fr
				if no != nil {
					f = fr.clone()
					yes.path = append(yes.path, ex.branchName(b, 0))
					no.path = append(no.path, ex.branchName(b, 1))
				}
				out = append(out, ex.edge(f, yes, b, b.Succs[0])...)
			}
			if no != nil {
				out = append(out, ex.edge(fr, no, b, b.Succs[1])...)
			}
			return out
		case *ssa.Jump:
			return ex.edge(fr, st, b, b.Succs[0])
		case *ssa.Return:
			var rets []Val
			for _, r := range in.Results {
				rets = append(rets, ex.val(fr, st, r))
			}
			return []Outcome{{st: st, rets: rets}}
		case *ssa.Panic:
			if ex.ct != nil && ex.ct.nopanic {
				ex.oblige(st, "nopanic", "explicit panic unreachable in "+fr.fn.Name(), ex.c.F)
			}
			return []Outcome{{st: st, panic: true}}
		case *ssa.RunDefers:
			outs := ex.runDefers(fr, st)
			return ex.continueEach(fr, outs, b, i, nil)
		case *ssa.Call:
			outs := ex.call(fr, st, &in.Call, in)
			return ex.continueEach(fr, outs, b, i, in)
		case *ssa.Defer:
			d := deferred{common: &in.Call}
			if in.Call.IsInvoke() {
				d.fn = ex.val(fr, st, in.Call.Value)
			} else {
				d.fn = ex.val(fr, st, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, ex.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.TypeAssert:
			outs := ex.typeAssert(fr, st, in)
			return ex.continueEach(fr, outs, b, i, in)
		case *ssa.Next:
			outs := ex.next(fr, st, in)
			return ex.continueEach(fr, outs, b, i, in)
		default:
			ex.instr(fr, st, in)
		}
	}
	unsup("block fell through")
	return nil
}

func (ex *Exec) branchName(b *ssa.BasicBlock, k int) string {
	if b.Parent() != ex.fn {
		return fmt.Sprintf("%s:%d%c", b.Parent().Name(), b.Index, "tf"[k])
	}
	return fmt.Sprintf("%d%c", b.Index, "tf"[k])
}

// continueEach resumes after an instruction with several outcomes.
func (ex *Exec) continueEach(fr *Frame, outs []Outcome, b *ssa.BasicBlock, i int, v ssa.Value) []Outcome {
	var res []Outcome
	for k, o := range outs {
		if o.panic {
			res = append(res, o)
			continue
		}
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		if v != nil {
			switch len(o.rets) {
			case 0:
				f.env[v] = nil
			case 1:
				f.env[v] = o.rets[0]
			default:
				f.env[v] = &TupleV{o.rets}
			}
		}
		res = append(res, ex.block(f, o.st, b, nil, i+1)...)
	}
	return res
}

func (ex *Exec) phis(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, ex.val(fr, st, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

func (ex *Exec) edge(fr *Frame, st *State, from, to *ssa.BasicBlock) []Outcome {
	// innermost loop context of this frame
	if n := len(fr.ctxs); n > 0 {
		ctx := fr.ctxs[n-1]
		if to == ctx.l.header && ctx.l.body[from] {
			ctx.onBack(fr, st, from)
			return nil
		}
		if ctx.l.body[from] && !ctx.l.body[to] {
			ctx.onExit(fr, st, from, to)
			return nil
		}
	}
	lf := ex.loopsOf(fr.fn)
	if l, ok := lf.byHeader[to]; ok {
		if !l.body[from] {
			return ex.enterLoop(fr, st, l, from)
		}
		// back edge outside any context: plain unrolling
		if fr.iters == nil {
			fr.iters = map[*ssa.BasicBlock]int{}
		}
		fr.iters[to]++
		lim := ex.unroll
		if fr.iters[to] > lim {
			st.unro = true
			ex.uncut++
			return nil
		}
	}
	return ex.block(fr, st, to, from, 0)
}

func (ex *Exec) runDefers(fr *Frame, st *State) []Outcome {
	outs := []Outcome{{st: st}}
	ds := fr.defers
	fr.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		var next []Outcome
		for _, o := range outs {
			if o.panic {
				next = append(next, o)
				continue
			}
			rs := ex.invoke(fr, o.st, ds[i].common, ds[i].fn, ds[i].args, nil)
			next = append(next, rs...)
		}
		outs = next
	}
	for i := range outs {
		outs[i].rets = nil
	}
	return outs
}

// ---- simple instructions ---------------------------------------------------

func (ex *Exec) nonNil(st *State, ref *Term, what string) {
	if st.spec {
		return
	}
	if ref.op == "int" && ref.ival.Sign() < 0 {
		return
	}
	if _, _, ok := ex.c.allocOf(ref); ok {
		return
	}
	if ref.op == "app" && (strings.HasPrefix(ref.sval, "sub.") || strings.HasPrefix(ref.sval, "el.") || strings.HasPrefix(ref.sval, "addr.")) {
		return
	}
	g := ex.c.Not(ex.c.Eq(ref, ex.c.Int(0)))
	if ex.noPanic || ex.ct != nil && ex.ct.nopanic {
		ex.oblige(st, "nopanic", "nil dereference: "+what, g)
	}
	st.assume(ex.c, g)
}

func (ex *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	c := ex.c
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		T := x.Type().Underlying().(*types.Pointer).Elem()
		ref := ex.newRef(st)
		if _, ok := sortOf(T); ok {
			l := &Loc{kind: "cell", key: "C:" + string(mustSort(T)), ref: ref, typ: T}
			// cells inside loops must read zero again
			fr.env[x] = l
			if _, ok := ex.hsort[l.key]; ok {
				if cur := c.Select(ex.H(st, l.key, SArr(SInt, mustSort(T))), ref); cur != c.Zero(mustSort(T)) {
					ex.store(st, l, ex.zeroVal(T))
				}
			}
		} else {
			fr.env[x] = &Loc{kind: "cell", ref: ref, typ: T}
		}
	case *ssa.BinOp:
		fr.env[x] = ex.binop(st, x.Op, ex.val(fr, st, x.X), ex.val(fr, st, x.Y), x.X.Type(), x.Y.Type(), x.Type())
	case *ssa.UnOp:
		fr.env[x] = ex.unop(fr, st, x)
	case *ssa.ChangeInterface:
		fr.env[x] = ex.val(fr, st, x.X)
	case *ssa.ChangeType:
		v := ex.val(fr, st, x.X)
		if sv, ok := v.(*StructV); ok {
			v = &StructV{typ: x.Type(), f: sv.f}
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, ex.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t, ok := fr.env[x.Tuple].(*TupleV)
		if !ok {
			unsup("extract from %T", fr.env[x.Tuple])
		}
		fr.env[x] = t.v[x.Index]
	case *ssa.Field:
		fr.env[x] = ex.val(fr, st, x.X).(*StructV).f[x.Field]
	case *ssa.FieldAddr:
		T := x.X.Type().Underlying().(*types.Pointer).Elem()
		s, _ := isStruct(T)
		base := ex.locOf(ex.val(fr, st, x.X), T)
		ref := ex.locRef(base)
		ex.nonNil(st, ref, "."+s.Field(x.Field).Name())
		fr.env[x] = ex.fieldLoc(T, s, x.Field, ref)
	case *ssa.IndexAddr:
		idx := ex.term(st, ex.val(fr, st, x.Index))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer: // *array
			at := u.Elem().Underlying().(*types.Array)
			l := ex.locOf(ex.val(fr, st, x.X), u.Elem())
			fr.env[x] = ex.elemLoc(at.Elem(), ex.locRef(l), idx)
		case *types.Slice:
			s := ex.term(st, ex.val(fr, st, x.X))
			ex.inBounds(st, idx, c.Sel("sl.len", s))
			fr.env[x] = ex.elemLoc(u.Elem(), c.Sel("sl.arr", s), c.Add(c.Sel("sl.off", s), idx))
		default:
			unsup("IndexAddr %s", x.X.Type())
		}
	case *ssa.Index:
		idx := ex.term(st, ex.val(fr, st, x.Index))
		switch x.X.Type().Underlying().(type) {
		case *types.Basic:
			s := ex.term(st, ex.val(fr, st, x.X))
			fr.env[x] = ex.byteAt(st, s, idx)
		case *types.Array:
			if idx.op != "int" {
				unsup("symbolic array index")
			}
			fr.env[x] = ex.val(fr, st, x.X).(*StructV).f[idx.ival.Int64()]
		default:
			unsup("Index %s", x.X.Type())
		}
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := ex.term(st, ex.val(fr, st, x.X))
			k := ex.mapKey(st, ex.val(fr, st, x.Index))
			v, okt := ex.mapLookup(st, mt, m, k)
			if x.CommaOk {
				fr.env[x] = &TupleV{[]Val{v, okt}}
			} else {
				fr.env[x] = v
			}
			return
		}
		s := ex.term(st, ex.val(fr, st, x.X))
		fr.env[x] = ex.byteAt(st, s, ex.term(st, ex.val(fr, st, x.Index)))
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, ex.val(fr, st, b))
		}
		ex.term(st, f)
		fr.env[x] = f
	case *ssa.MakeInterface:
		fr.env[x] = ex.makeIface(st, ex.val(fr, st, x.X), x.X.Type())
	case *ssa.MakeMap:
		fr.env[x] = ex.newRef(st)
	case *ssa.MakeSlice:
		ln, cp := ex.term(st, ex.val(fr, st, x.Len)), ex.term(st, ex.val(fr, st, x.Cap))
		st.assume(c, c.Le(c.Int(0), ln))
		st.assume(c, c.Le(ln, cp))
		ref := ex.newRef(st)
		fr.env[x] = c.op("mkslice", SSlice, ref, c.Int(0), ln, cp)
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := ex.term(st, ex.val(fr, st, x.Map))
		ex.nonNil(st, m, "map update")
		ex.mapPut(st, mt, m, ex.mapKey(st, ex.val(fr, st, x.Key)), ex.val(fr, st, x.Value))
	case *ssa.Range:
		ex.iterN++
		it := &IterV{x: ex.term(st, ex.val(fr, st, x.X)), typ: x.X.Type()}
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			it.kind = "map"
			ks := mustSort(mt.Key())
			it.id = fmt.Sprintf("IT:%d", ex.iterN)
			ex.hsort[it.id] = SArr(ks, SBool)
			ex.setH(st, it.id, c.Zero(SArr(ks, SBool)))
		} else {
			it.kind = "str"
			it.id = fmt.Sprintf("IT:%d", ex.iterN)
			ex.hsort[it.id] = SInt
			ex.setH(st, it.id, c.Int(0))
		}
		fr.env[x] = it
	case *ssa.Slice:
		fr.env[x] = ex.slice(fr, st, x)
	case *ssa.Store:
		T := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		l := ex.locOf(ex.val(fr, st, x.Addr), T)
		if l.kind == "cell" || l.kind == "elem" {
			ex.nonNil(st, l.ref, "store")
		}
		ex.store(st, l, ex.val(fr, st, x.Val))
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

func (ex *Exec) inBounds(st *State, i, n *Term) {
	c := ex.c
	g := c.And(c.Le(c.Int(0), i), c.Lt(i, n))
	if g == c.T || st.spec {
		return
	}
	if ex.noPanic || ex.ct != nil && ex.ct.nopanic {
		ex.oblige(st, "nopanic", "index in range", g)
	}
	st.assume(c, g)
}

func (ex *Exec) byteAt(st *State, s, i *Term) *Term {
	c := ex.c
	ex.inBounds(st, i, c.Len(s))
	if s.op == "str" && i.op == "int" {
		return c.Int(int64(s.sval[i.ival.Int64()]))
	}
	return c.op("str.to_code", SInt, c.op("str.at", SStr, s, i))
}

func (ex *Exec) mapKey(st *State, v Val) *Term {
	return ex.term(st, v)
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type) Val {
	c := ex.c
	switch op {
	case token.EQL, token.NEQ:
		e := ex.eqVal(st, a, b, ta, tb)
		if op == token.NEQ {
			return c.Not(e)
		}
		return e
	}
	x, y := ex.term(st, a), ex.term(st, b)
	if x.sort == SStr {
		switch op {
		case token.ADD:
			return c.Concat(x, y)
		case token.LSS:
			return c.op("str.<", SBool, x, y)
		case token.GTR:
			return c.op("str.<", SBool, y, x)
		case token.LEQ:
			return c.op("str.<=", SBool, x, y)
		case token.GEQ:
			return c.op("str.<=", SBool, y, x)
		}
	}
	if x.sort == SFlt {
		if op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ {
			return c.App("flt."+op.String(), SBool, x, y)
		}
		return c.App("flt."+op.String(), SFlt, x, y)
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return ex.wrap(st, c.Mul(x, y), tr, x, ta, y, tb)
	case token.QUO:
		if y.op == "int" && y.ival.Sign() > 0 {
			if x.op == "int" {
				return c.BigInt(new(big.Int).Quo(x.ival, y.ival))
			}
			ex.rangeFact(st, x, ta)
			// truncated division
			return c.Ite(c.Le(c.Int(0), x), c.op("div", SInt, x, y), c.Neg(c.op("div", SInt, c.Neg(x), y)))
		}
	case token.REM:
		if y.op == "int" && y.ival.Sign() > 0 {
			if x.op == "int" {
				return c.BigInt(new(big.Int).Rem(x.ival, y.ival))
			}
			return c.Ite(c.Le(c.Int(0), x), c.op("mod", SInt, x, y), c.Neg(c.op("mod", SInt, c.Neg(x), y)))
		}
	case token.SHL:
		if x.op == "int" && y.op == "int" {
			return c.BigInt(new(big.Int).Lsh(x.ival, uint(y.ival.Uint64())))
		}
	case token.AND, token.OR, token.XOR, token.SHR, token.AND_NOT:
		if x.op == "int" && y.op == "int" {
			switch op {
			case token.AND:
				return c.BigInt(new(big.Int).And(x.ival, y.ival))
			case token.OR:
				return c.BigInt(new(big.Int).Or(x.ival, y.ival))
			}
		}
		return c.App("int."+op.String(), SInt, x, y)
	}
	unsup("binop %s on %s", op, ta)
	return nil
}

func (ex *Exec) rangeFact(st *State, x *Term, T types.Type) {
	bits, signed, ok := intRange(T)
	if !ok || x.op == "int" {
		return
	}
	c := ex.c
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		lo.Neg(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
		hi.Lsh(big.NewInt(1), uint(bits-1))
	} else {
		hi.Lsh(big.NewInt(1), uint(bits))
	}
	st.assume(c, c.Le(c.BigInt(lo), x))
	st.assume(c, c.Le(x, c.BigInt(new(big.Int).Sub(hi, big.NewInt(1)))))
}

// wrap reduces an exact result to the value range of its type.
func (ex *Exec) wrap(st *State, r *Term, T types.Type, ops ...interface{}) *Term {
	for i := 0; i+1 < len(ops); i += 2 {
		ex.rangeFact(st, ops[i].(*Term), ops[i+1].(types.Type))
	}
	bits, signed, ok := intRange(T)
	if !ok {
		return r
	}
	c := ex.c
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	half := new(big.Int)
	if signed {
		half.Lsh(big.NewInt(1), uint(bits-1))
	}
	if r.op == "int" {
		v := new(big.Int).Add(r.ival, half)
		v.Mod(v, m)
		v.Sub(v, half)
		return c.BigInt(v)
	}
	in := c.And(c.Le(c.BigInt(new(big.Int).Neg(half)), r), c.Lt(r, c.BigInt(new(big.Int).Sub(m, half))))
	w := c.Sub(c.op("mod", SInt, c.Add(r, c.BigInt(half)), c.BigInt(m)), c.BigInt(half))
	return c.Ite(in, r, w)
}

func (ex *Exec) eqVal(st *State, a, b Val, ta, tb types.Type) *Term {
	c := ex.c
	if sa, ok := a.(*StructV); ok {
		sb, ok := b.(*StructV)
		if !ok {
			// struct against interface
			unsup("struct comparison")
		}
		var es []*Term
		for i := range sa.f {
			es = append(es, ex.eqVal(st, sa.f[i], sb.f[i], nil, nil))
		}
		return c.And(es...)
	}
	x, y := ex.term(st, a), ex.term(st, b)
	if x.sort != y.sort {
		if x.sort == SIface && tb != nil {
			y = ex.term(st, ex.makeIface(st, b, tb))
		} else if y.sort == SIface && ta != nil {
			x = ex.term(st, ex.makeIface(st, a, ta))
		} else {
			unsup("comparison of %s and %s", x.sort, y.sort)
		}
	}
	if x.sort == SSlice {
		return c.Eq(c.Sel("sl.arr", x), c.Sel("sl.arr", y))
	}
	return c.Eq(x, y)
}

func (ex *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	c := ex.c
	v := ex.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		T := x.X.Type().Underlying().(*types.Pointer).Elem()
		l := ex.locOf(v, T)
		if l.kind == "cell" {
			ex.nonNil(st, l.ref, "load")
		}
		return ex.load(st, l)
	case token.NOT:
		return c.Not(ex.term(st, v))
	case token.SUB:
		t := ex.term(st, v)
		if t.sort == SFlt {
			return c.App("flt.neg", SFlt, t)
		}
		return ex.wrap(st, c.Neg(t), x.Type())
	case token.XOR:
		return c.App("int.compl", SInt, ex.term(st, v))
	}
	unsup("unop %s", x.Op)
	return nil
}

func (ex *Exec) makeIface(st *State, v Val, T types.Type) Val {
	c := ex.c
	if _, ok := T.Underlying().(*types.Interface); ok {
		return v
	}
	tag := c.Int(ex.eng.tags.Of(T))
	k := ctorFor(T)
	if k == "iref" {
		if _, ok := sortOf(T); !ok {
			// boxed copy
			ref := ex.newRef(st)
			ex.store(st, &Loc{kind: "cell", ref: ref, typ: T}, v)
			return c.IRef(tag, ref)
		}
		return c.IRef(tag, ex.term(st, v))
	}
	return c.op(k, SIface, tag, ex.term(st, v))
}

// unIface extracts the value of concrete type T from an interface term.
func (ex *Exec) unIface(st *State, t *Term, T types.Type) Val {
	c := ex.c
	switch ctorFor(T) {
	case "iref":
		ref := c.Sel("iref.ref", t)
		if _, ok := sortOf(T); !ok {
			return ex.load(st, &Loc{kind: "cell", ref: ref, typ: T})
		}
		ex.typeFacts(st, ref, T)
		return ex.wrapVal(ref, T)
	case "istr":
		return c.Sel("istr.val", t)
	case "iint":
		v := c.Sel("iint.val", t)
		if v.op != "int" && !v.bound {
			tmp := &State{pcset: map[*Term]bool{}}
			ex.rangeFact(tmp, v, T)
			st.assume(c, c.Implies(c.Eq(c.TagOf(t), c.Int(ex.eng.tags.Of(T))), c.And(tmp.pc...)))
		}
		return v
	case "ibool":
		return c.Sel("ibool.val", t)
	case "iflt":
		return c.Sel("iflt.val", t)
	case "islice":
		v := c.Sel("islice.val", t)
		ex.typeFacts(st, v, T)
		return v
	}
	return nil
}

// hasType: the dynamic type of t is (or implements) T.
func (ex *Exec) hasType(st *State, t *Term, T types.Type) *Term {
	c := ex.c
	if it, ok := T.Underlying().(*types.Interface); ok {
		return ex.implements(t, T, it)
	}
	tag := c.Int(ex.eng.tags.Of(T))
	e := c.Eq(c.TagOf(t), tag)
	if e == c.T || e == c.F {
		return e
	}
	// the representation follows the tag
	return c.And(e, c.Is(ctorFor(T), t))
}

func (ex *Exec) implements(t *Term, T types.Type, it *types.Interface) *Term {
	c := ex.c
	tag := c.TagOf(t)
	return ex.implTag(tag, t, T, it, c)
}

func (ex *Exec) implTag(tag, t *Term, T types.Type, it *types.Interface, c *Ctx) *Term {
	switch {
	case tag.op == "int":
		n := tag.ival.Int64()
		if n == 0 {
			return c.F
		}
		return c.Bool(types.Implements(ex.eng.tags.Type(n), it))
	case tag.op == "ite":
		return c.Ite(tag.args[0], ex.implTag(tag.args[1], t, T, it, c), ex.implTag(tag.args[2], t, T, it, c))
	}
	if it.NumMethods() == 0 {
		return c.Not(c.Eq(t, c.INil()))
	}
	name := "impl:" + typeKey(T)
	ex.eng.implIfaces.Store(sanitize(name), it)
	return c.And(c.Not(c.Eq(tag, c.Int(0))), c.App(name, SBool, tag))
}

func (ex *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []Outcome {
	c := ex.c
	t := ex.term(st, ex.val(fr, st, x.X))
	cond := ex.hasType(st, t, x.AssertedType)
	get := func(s *State) Val {
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			return t
		}
		return ex.unIface(s, t, x.AssertedType)
	}
	if !x.CommaOk {
		if ex.ct != nil && ex.ct.nopanic {
			ex.oblige(st, "nopanic", "type assertion to "+shortType(x.AssertedType), cond)
		}
		if !st.assume(c, cond) {
			return nil
		}
		return []Outcome{{st: st, rets: []Val{get(st)}}}
	}
	yes, no := ex.fork(st, cond)
	var outs []Outcome
	if yes != nil {
		outs = append(outs, Outcome{st: yes, rets: []Val{get(yes), c.T}})
	}
	if no != nil {
		outs = append(outs, Outcome{st: no, rets: []Val{ex.zeroVal(x.AssertedType), c.F}})
	}
	return outs
}

func (ex *Exec) next(fr *Frame, st *State, x *ssa.Next) []Outcome {
	c := ex.c
	it := fr.env[x.Iter].(*IterV)
	if it.kind == "map" {
		mt := it.typ.Underlying().(*types.Map)
		ks := mustSort(mt.Key())
		vis := ex.H(st, it.id, SArr(ks, SBool))
		dom := ex.mapDom(st, mt, it.x)
		nonnil := c.Not(c.Eq(it.x, c.Int(0)))
		// done
		no := st.clone()
		k := c.BV("k", ks)
		done := no.assume(c, c.Or(c.Eq(it.x, c.Int(0)), c.Forall([]*Term{k}, c.Implies(c.Select(dom, k), c.Select(vis, k)))))
		yes := st
		key := c.Fresh("k", ks)
		if ex.fkind != nil {
			ex.fkind(key, mt.Key())
		}
		more := yes.assume(c, c.And(nonnil, c.Select(dom, key), c.Not(c.Select(vis, key))))
		if k2, v := ex.emptyMap(st, dom); k2 && v {
			return []Outcome{{st: no, rets: []Val{c.F, ex.zeroVal(mt.Key()), ex.zeroVal(mt.Elem())}}}
		}
		if ex.trialLeaves(fr, x.Block()) {
			panic(trialAbort{})
		}
		var outs []Outcome
		if more && (ex.noFeas || ex.feasible(yes)) {
			ex.setH(yes, it.id, c.Store(vis, key, c.T))
			v, _ := ex.mapGet(yes, mt, it.x, key)
			yes.path = append(yes.path, "next")
			outs = append(outs, Outcome{st: yes, rets: []Val{c.T, ex.wrapVal(key, mt.Key()), v}})
		}
		if done && (ex.noFeas || len(outs) == 0 || ex.feasible(no)) {
			no.path = append(no.path, "done")
			outs = append(outs, Outcome{st: no, rets: []Val{c.F, ex.zeroVal(mt.Key()), ex.zeroVal(mt.Elem())}})
		}
		return outs
	}
	// string iteration: byte position; runes by uninterpreted decoding
	pos := ex.H(st, it.id, SInt)
	if it.x.op == "str" && pos.op == "int" {
		s := it.x.sval
		p := int(pos.ival.Int64())
		if p >= len(s) {
			return []Outcome{{st: st, rets: []Val{c.F, c.Int(0), c.Int(0)}}}
		}
		for i, r := range s[p:] {
			if i == 0 {
				w := len(string(r))
				if r == 0xFFFD {
					w = 1
				}
				ex.setH(st, it.id, c.Int(int64(p+w)))
				return []Outcome{{st: st, rets: []Val{c.T, pos, c.Int(int64(r))}}}
			}
		}
	}
	yes, no := ex.fork(st, c.Lt(pos, c.Len(it.x)))
	if yes != nil && no != nil && ex.trialLeaves(fr, x.Block()) {
		panic(trialAbort{})
	}
	var outs []Outcome
	if yes != nil {
		r := c.App("runeAt", SInt, it.x, pos)
		w := c.App("runeWidth", SInt, it.x, pos)
		yes.assume(c, c.And(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(pos, w), c.Len(it.x))))
		ex.setH(yes, it.id, c.Add(pos, w))
		yes.path = append(yes.path, "next")
		outs = append(outs, Outcome{st: yes, rets: []Val{c.T, pos, r}})
	}
	if no != nil {
		no.path = append(no.path, "done")
		outs = append(outs, Outcome{st: no, rets: []Val{c.F, c.Int(0), c.Int(0)}})
	}
	return outs
}

func (ex *Exec) emptyMap(st *State, dom *Term) (bool, bool) {
	return dom.op == "constarr", dom.op == "constarr"
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := ex.c
	fs, fok := sortOf(from)
	ts, tok := sortOf(to)
	if fok && tok {
		t := ex.term(st, v)
		switch {
		case fs == SInt && ts == SInt:
			fb, fsg, ok1 := intRange(from)
			tb, tsg, ok2 := intRange(to)
			if !ok1 || !ok2 {
				return t
			}
			if tsg == fsg && tb >= fb || tsg && !fsg && tb > fb {
				return t
			}
			return ex.wrap(st, t, to, t, from)
		case fs == SStr && ts == SStr:
			return t
		case fs == SInt && ts == SFlt:
			return c.App("flt.ofint", SFlt, t)
		case fs == SFlt && ts == SFlt:
			return t
		case fs == SFlt && ts == SInt:
			return c.App("flt.toint", SInt, t)
		case fs == SInt && ts == SStr:
			if t.op == "int" {
				return c.Str(string(rune(t.ival.Int64())))
			}
			r := c.App("strOfRune", SStr, t)
			if t.op == "app" && t.sval == "runeAt" {
				// valid encodings round trip; see DESIGN (assumption utf8)
				w := c.App("runeWidth", SInt, t.args[0], t.args[1])
				ex.note(&ex.assumed, "strings iterated by rune are valid UTF-8")
				return c.Substr(t.args[0], t.args[1], w)
			}
			return r
		case fs == SSlice && ts == SStr:
			return ex.bytesToStr(st, t)
		case fs == SStr && ts == SSlice:
			return ex.strToBytes(st, t)
		}
	}
	if from.Underlying() == to.Underlying() {
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

const bytesKey = "E:Int"

func (ex *Exec) bytesToStr(st *State, s *Term) *Term {
	c := ex.c
	h := ex.H(st, bytesKey, SArr(SInt, SArr(SInt, SInt)))
	content := c.Select(h, c.Sel("sl.arr", s))
	off, n := c.Sel("sl.off", s), c.Sel("sl.len", s)
	if content.op == "app" && content.sval == "bytesarr" && off.op == "int" && off.ival.Sign() == 0 && n == c.Len(content.args[0]) {
		return content.args[0]
	}
	if n.op == "int" && n.ival.Sign() == 0 {
		return c.Str("")
	}
	t := c.App("strof", SStr, content, off, n)
	st.assume(c, c.Eq(c.Len(t), n))
	return t
}

func (ex *Exec) strToBytes(st *State, s *Term) *Term {
	c := ex.c
	ref := ex.newRef(st)
	hs := SArr(SInt, SArr(SInt, SInt))
	ex.storeH(st, bytesKey, hs, ref, c.App("bytesarr", SArr(SInt, SInt), s))
	n := c.Len(s)
	return c.op("mkslice", SSlice, ref, c.Int(0), n, n)
}

func (ex *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Val {
	c := ex.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.term(st, ex.val(fr, st, v))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := get(x.X)
		if hi == nil {
			hi = c.Len(s)
		}
		ex.sliceBounds(st, lo, hi, c.Len(s))
		return c.Substr(s, lo, c.Sub(hi, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		l := ex.locOf(ex.val(fr, st, x.X), u.Elem())
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		ex.sliceBounds(st, lo, hi, n)
		return c.op("mkslice", SSlice, ex.locRef(l), lo, c.Sub(hi, lo), c.Sub(mx, lo))
	case *types.Slice:
		s := get(x.X)
		if hi == nil {
			hi = c.Sel("sl.len", s)
		}
		cp := c.Sel("sl.cap", s)
		if mx == nil {
			mx = cp
		}
		ex.sliceBounds(st, lo, hi, cp)
		return c.op("mkslice", SSlice, c.Sel("sl.arr", s), c.Add(c.Sel("sl.off", s), lo), c.Sub(hi, lo), c.Sub(mx, lo))
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (ex *Exec) sliceBounds(st *State, lo, hi, n *Term) {
	c := ex.c
	g := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n))
	if g == c.T || st.spec {
		return
	}
	if ex.noPanic || ex.ct != nil && ex.ct.nopanic {
		ex.oblige(st, "nopanic", "slice bounds in range", g)
	}
	st.assume(c, g)
}

// appendVals models append(s, elems...) for atomic or struct elements.
func (ex *Exec) appendSlice(st *State, s, t *Term, T types.Type, tIsStr bool) Val {
	c := ex.c
	et := T.Underlying().(*types.Slice).Elem()
	es, ok := sortOf(et)
	if !ok {
		unsup("append of struct elements %s", et)
	}
	key := elemKey(et)
	hs := SArr(SInt, SArr(SInt, es))
	h := ex.H(st, key, hs)
	sarr, soff, slen, scap := c.Sel("sl.arr", s), c.Sel("sl.off", s), c.Sel("sl.len", s), c.Sel("sl.cap", s)
	var tlen *Term
	var elems []*Term
	var tcontent, toff *Term
	if tIsStr {
		tlen = c.Len(t)
		tcontent = c.App("bytesarr", SArr(SInt, SInt), t)
		toff = c.Int(0)
	} else {
		tlen = c.Sel("sl.len", t)
		toff = c.Sel("sl.off", t)
		tcontent = c.Select(h, c.Sel("sl.arr", t))
	}
	concrete := tlen.op == "int" && tlen.ival.Int64() <= 32
	if concrete {
		for i := int64(0); i < tlen.ival.Int64(); i++ {
			elems = append(elems, c.Select(tcontent, c.Add(toff, c.Int(i))))
		}
		if len(elems) == 0 {
			return s
		}
	}
	scontent := c.Select(h, sarr)
	nlen := c.Add(slen, tlen)
	ref := ex.newRef(st)
	inplace := c.Le(nlen, scap)
	if sarr.op == "int" && sarr.ival.Sign() == 0 && concrete {
		inplace = c.F
	}
	if scap.op == "int" && scap.ival.Sign() == 0 && concrete {
		inplace = c.F
	}
	if k, v := ex.decide(st, inplace); k {
		inplace = c.Bool(v)
	}
	narr := c.Ite(inplace, sarr, ref)
	var fcap *Term
	fcap = c.Fresh("cap", SInt)
	st.assume(c, c.Le(nlen, fcap))
	ncap := c.Ite(inplace, scap, fcap)
	ncontent := scontent
	noff := soff
	if concrete {
		for i, e := range elems {
			ncontent = c.Store(ncontent, c.Add(soff, slen, c.Int(int64(i))), e)
		}
	} else {
		// unknown length: content described by the catenation
		if slen.op == "int" && slen.ival.Sign() == 0 {
			// append([]T(nil), t...) : a copy
		}
		cat := c.App("catarr", SArr(SInt, es), scontent, soff, slen, tcontent, toff, tlen)
		if noff.op != "int" || noff.ival.Sign() != 0 {
			// the fresh copy is addressed from zero
			if inplace != c.F {
				inplace = c.F
				narr = ref
				ncap = fcap
				ex.note(&ex.assumed, "append of a slice of unknown length copies (no sharing of spare capacity observed)")
			}
			noff = c.Int(0)
		} else if inplace != c.F {
			narr = ref
			ncap = fcap
			ex.note(&ex.assumed, "append of a slice of unknown length copies (no sharing of spare capacity observed)")
		}
		ncontent = cat
		ex.catFacts(st, cat)
	}
	ex.storeH(st, key, hs, narr, ncontent)
	return c.op("mkslice", SSlice, narr, noff, nlen, ncap)
}

// catFacts: elementwise description of a catenation.
func (ex *Exec) catFacts(st *State, cat *Term) {
	c := ex.c
	a := cat.args
	i := c.BV("i", SInt)
	body := c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Add(a[2], a[5]))),
		c.Eq(c.op("select", seqElemOfArr(cat.sort), cat, i),
			c.Ite(c.Lt(i, a[2]), c.Select(a[0], c.Add(a[1], i)), c.Select(a[3], c.Add(a[4], c.Sub(i, a[2]))))))
	st.assume(c, c.Forall([]*Term{i}, body, c.op("select", seqElemOfArr(cat.sort), cat, i)))
}

func seqElemOfArr(s Sort) Sort { _, e := arrElem(s); return e }

// ---- proving ---------------------------------------------------------------

// given simplifies a goal by the literals it is proved under.
func (ex *Exec) given(as []*Term, goal *Term) *Term {
	if goal == ex.c.F || goal == ex.c.T {
		return goal
	}
	m := ex.givenMap(as)
	if len(m) == 0 {
		return goal
	}
	return ex.c.Subst(goal, m)
}

func (ex *Exec) givenMap(as []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	zero := ex.c.Int(0)
	var know func(f *Term, pos bool)
	know = func(f *Term, pos bool) {
		switch {
		case f.op == "not":
			know(f.args[0], !pos)
		case f.op == "and" && pos, f.op == "or" && !pos:
			for _, a := range f.args {
				know(a, pos)
			}
		case f.op == "forall", f.op == "true", f.op == "false":
		case f.op == "or" || f.op == "and":
			// not known part by part, but as a whole
			m[f] = ex.c.T
			if !pos {
				m[f] = ex.c.F
			}
		case pos:
			m[f] = ex.c.T
		default:
			m[f] = ex.c.F
			if f.op == "<=" && f.args[1] == zero {
				m[ex.c.Eq(f.args[0], zero)] = ex.c.F
			}
		}
	}
	for _, f := range as {
		if f.op == "or" {
			continue
		}
		know(f, true)
	}
	delete(m, ex.c.T)
	delete(m, ex.c.F)
	return m
}

func (ex *Exec) prove(as []*Term, goal *Term, ms int, fallback bool) Result {
	as, goal = ex.reduce(as, goal)
	if goal == ex.c.T {
		return Result{Status: "unsat", Backend: "simplifier"}
	}
	facts := ex.saturate(as, goal, 1)
	more := ex.satMore
	if !more {
		return ex.solve(facts, goal, ms, fallback, false)
	}
	if r := ex.solve(facts, goal, min(ms, 200), false, false); r.Status == "unsat" {
		return r
	}
	facts = ex.saturate(as, goal, 2)
	return ex.solve(facts, goal, ms, fallback, false)
}

// oblige records and decides a proof obligation.
func (ex *Exec) oblige(st *State, kind, name string, goal *Term) {
	if ex.dry > 0 {
		st.assume(ex.c, goal)
		return
	}
	o := &Obligation{Fn: fnKey(ex.fn.String()), Kind: kind, Name: name, Path: pathStr(st), Cut: st.unro || ex.unroll > 0}
	if ex.trial == 0 || true {
		ex.obls = append(ex.obls, o)
	}
	if goal == ex.c.T || st.pcset[goal] {
		o.Status, o.Backend = "discharged", "simplifier"
		return
	}
	var r Result
	var facts []*Term
	// a clause that failed on other paths already is not worth long queries
	if ex.clauseFails == nil {
		ex.clauseFails = map[string]int{}
	}
	fails := ex.clauseFails[kind+":"+name]
	top := ex.timeout
	quickly := fails >= 2 || hurry.Load()
	if quickly {
		top = 400
	}
	as, given := ex.reduce(st.pc, goal)
	if given == ex.c.T {
		o.Status, o.Backend = "discharged", "simplifier"
		return
	}
	for fuel := 1; fuel <= 3; fuel++ {
		facts = ex.saturate(as, given, fuel)
		last := fuel == 3 || !ex.satMore
		ms := top
		if !last {
			ms = min(ms, 1500)
		}
		r = ex.solve(facts, given, ms, last && !quickly, last)
		if r.Status == "unsat" || last {
			break
		}
	}
	o.Backend, o.Ms = r.Backend, r.Ms
	switch r.Status {
	case "unsat":
		o.Status = "discharged"
		o.Backend = r.Backend
	case "sat":
		o.Status = "refuted"
		o.Model = r.Model
		//		o.Query = r.Query
	default:
		o.Status = "unknown"
		//		o.Query = r.Query
		o.Model = r.Model
	}
	if o.Status != "discharged" {
		if ex.hint != nil && ex.trial == 0 {
			panic(hintMiss{})
		}
		ex.clauseFails[kind+":"+name]++
		o.Detail = given.render(40)
		if os.Getenv("GOV_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "UNPROVED %s [%s] %s path=%s\n  goal: %s\n", o.Fn, kind, name, o.Path, goal.render(30))
			for _, f := range facts {
				fmt.Fprintf(os.Stderr, "    %s\n", f.render(14))
			}
			if os.Getenv("GOV_DEBUG") == "2" {
				fmt.Fprintln(os.Stderr, r.Model)
			}
		}
	}
	// continue under the assumption that it holds
	st.assume(ex.c, goal)
}
