package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

type loopForest struct {
	byHeader map[*ssa.BasicBlock]*loop
}

type trialAbort struct{}

func (ex *Exec) loopsOf(fn *ssa.Function) *loopForest {
	if lf, ok := ex.loopInfo[fn]; ok {
		return lf
	}
	lf := &loopForest{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := lf.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					lf.byHeader[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	ex.loopInfo[fn] = lf
	return lf
}

func (ex *Exec) trialLeaves(fr *Frame, b *ssa.BasicBlock) bool {
	n := len(fr.ctxs)
	return n > 0 && fr.ctxs[n-1].l.header == b && fr.ctxs[n-1].trial
}

type edgeState struct {
	fr       *Frame
	st       *State
	from, to *ssa.BasicBlock
}

func pushCtx(fr *Frame, c *loopCtx) {
	n := make([]*loopCtx, len(fr.ctxs)+1)
	copy(n, fr.ctxs)
	n[len(fr.ctxs)] = c
	fr.ctxs = n
}

func popCtx(fr *Frame) {
	fr.ctxs = fr.ctxs[:len(fr.ctxs)-1]
}

func (ex *Exec) enterLoop(fr *Frame, st *State, l *loop, from *ssa.BasicBlock) []Outcome {
	// 1. concrete unrolling
	if outs, ok := ex.trialLoop(fr, st, l, from); ok {
		return outs
	}
	if ex.unroll > 0 {
		f := fr
		if f.iters == nil {
			f.iters = map[*ssa.BasicBlock]int{}
		}
		f.iters[l.header] = 0
		// a pass-through context so that inner edges see no outer context of this frame
		return ex.block(f, st, l.header, from, 0)
	}
	return ex.invLoop(fr, st, l, from)
}

func (ex *Exec) trialLoop(fr0 *Frame, st0 *State, l *loop, from *ssa.BasicBlock) (res []Outcome, ok bool) {
	nobl := len(ex.obls)
	iterN := ex.iterN
	fr, st := fr0.clone(), st0.clone()
	ctx := &loopCtx{l: l, trial: true}
	var exits []edgeState
	n, states := 0, 0
	var rets []Outcome
	ctx.onExit = func(f *Frame, s *State, a, b *ssa.BasicBlock) {
		exits = append(exits, edgeState{f.clone(), s, a, b})
	}
	var depth int
	ctx.onBack = func(f *Frame, s *State, a *ssa.BasicBlock) {
		states++
		if states > 300 {
			panic(trialAbort{})
		}
		depth++
		if depth > 48 {
			panic(trialAbort{})
		}
		rets = append(rets, ex.block(f.clone(), s, l.header, a, 0)...)
		depth--
	}
	_ = n
	pushCtx(fr, ctx)
	ex.trial++
	dry := ex.dry
	defer func() {
		ex.trial--
		ex.dry = dry
		if r := recover(); r != nil {
			if _, is := r.(trialAbort); is {
				ex.obls = ex.obls[:nobl]
				_ = iterN
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	outs := ex.block(fr, st, l.header, from, 0)
	outs = append(outs, rets...)
	return append(outs, ex.resumeExits(exits)...), true
}

func (ex *Exec) resumeExits(exits []edgeState) []Outcome {
	var outs []Outcome
	for _, e := range exits {
		popCtx(e.fr)
		outs = append(outs, ex.edge(e.fr, e.st, e.from, e.to)...)
	}
	return outs
}

// ---- invariant mode --------------------------------------------------------

type cand struct {
	name   string
	user   bool
	clause *Clause
	moving bool // speaks of something the loop may change
	f      func(fr *Frame, st *State) *Term
}

type writeObs struct {
	key string
	ref *Term
	pc  []*Term
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (ex *Exec) invLoop(fr0 *Frame, st0 *State, l *loop, from *ssa.BasicBlock) []Outcome {
	c := ex.c
	ex.invDepth++
	defer func() { ex.invDepth-- }()
	if ex.invDepth > 4 {
		unsup("loops nested too deeply")
	}
	phis := headerPhis(l.header)
	// entry frame: phis bound to their entry values
	efr := fr0.clone()
	ex.phis(efr, st0, l.header, from)
	est := st0.clone()

	modes := map[string]string{} // heap key -> top|entry|full
	invRefs := map[string][]*Term{}
	var evNames map[string]bool
	btop := c.Add(c.Sym(fmt.Sprintf("ALLOC%d", est.region), SInt), c.Int(est.alloc))
	alloc0 := c.Sym("ALLOC0", SInt)

	cands := ex.loopCands(fr0, efr, est, l, phis, btop)
	// filter on entry
	filter := func(cs []*cand, fr *Frame, st *State, phase string) (keep []*cand, dropped int) {
		// every candidate with little effort first; only if no form of one of
		// the contract's invariants is left, its forms are tried in earnest
		alive := map[*Clause]bool{}
		moving := map[*Clause]bool{}
		for _, cd := range cs {
			if cd.moving {
				moving[cd.clause] = true
			}
		}
		easy := map[*cand]bool{}
		var gs []*Term
		var of []*cand
		for _, cd := range cs {
			if cd.user && cd.clause != nil {
				if t := ex.candTerm(cd, fr, st); t != nil {
					gs, of = append(gs, t), append(of, cd)
				}
			}
		}
		for i, r := range ex.proveMany(st.pc, gs, 800, false) {
			if r.Status == "unsat" {
				easy[of[i]] = true
				if of[i].moving || !moving[of[i].clause] {
					alive[of[i].clause] = true
				}
			}
			if os.Getenv("GOV_TIME") != "" {
				fmt.Fprintf(os.Stderr, "  cand[easy] %s %v %dms\n", of[i].name, easy[of[i]], r.Ms)
			}
		}
		// the others in earnest
		gs, of = nil, nil
		hard := map[*cand]Result{}
		for _, cd := range cs {
			if cd.user && !easy[cd] && !alive[cd.clause] && !ex.loopHard[hardKey(phase, l.header, cd.name)] {
				if t := ex.candTerm(cd, fr, st); t != nil {
					gs, of = append(gs, t), append(of, cd)
				}
			}
		}
		for i, r := range ex.proveMany(st.pc, gs, 4000, true) {
			hard[of[i]] = r
		}
		for _, cd := range cs {
			if easy[cd] {
				keep = append(keep, cd)
				continue
			}
			if cd.user && alive[cd.clause] {
				dropped++
				continue
			}
			t := ex.candTerm(cd, fr, st)
			if t == nil {
				dropped++
				continue
			}
			t0 := nowMs()
			var r Result
			if cd.user {
				var ok bool
				if r, ok = hard[cd]; !ok {
					// tried in earnest on another path
					dropped++
					continue
				}
			} else {
				// these speak of the loop's variables only
				if _, ok := plainOnly(nil, t); ok {
					r = ex.plain(st.pc, t, 400)
				} else {
					r = ex.quick(st.pc, t, 400)
				}
			}
			if os.Getenv("GOV_TIME") != "" {
				fmt.Fprintf(os.Stderr, "  cand[%s] %s %s %dms\n", phase, cd.name, r.Status, max(nowMs()-t0, r.Ms))
			}
			if r.Status != "unsat" {
				if cd.user {
					if ex.loopHard == nil {
						ex.loopHard = map[string]bool{}
					}
					ex.loopHard[hardKey(phase, l.header, cd.name)] = true
				}
				if os.Getenv("GOV_HOUDINI") != "" {
					fmt.Fprintf(os.Stderr, "  drop[%s] %s (%s) in %s\n", phase, cd.name, r.Status, fr.fn)
				}
				if os.Getenv("GOV_HOUDINI") == "2" && cd.user {
					fmt.Fprintf(os.Stderr, "   goal %s\n", t.render(30))
					for _, f := range ex.saturate(st.pc, t, 2) {
						fmt.Fprintf(os.Stderr, "      %s\n", f.render(16))
					}
				}
				dropped++
				continue
			}
			keep = append(keep, cd)
		}
		return
	}
	// another entry into the same loop: forms that were not preserved then
	// are not tried again
	key := l.header
	if fr0.caller != nil {
		key = nil
	}
	if ex.loopDrop == nil {
		ex.loopDrop = map[*ssa.BasicBlock]map[string]bool{}
	}
	if old := ex.loopDrop[key]; key != nil && old != nil {
		var keep []*cand
		for _, cd := range cands {
			if !old[cd.name] {
				keep = append(keep, cd)
			}
		}
		cands = keep
	}
	hkey := fmt.Sprintf("%s#%d", fnKey(fr0.fn.String()), l.header.Index)
	if ex.hint != nil {
		h := ex.hint[hkey]
		var keep []*cand
		for _, cd := range cands {
			if h.has(cd.name) {
				keep = append(keep, cd)
			}
		}
		cands = keep
		if h != nil {
			for k, m := range h.Modes {
				if _, ok := ex.hsort[k]; ok {
					modes[k] = m
				}
			}
			for _, n := range h.Events {
				if evNames == nil {
					evNames = map[string]bool{}
				}
				evNames[n] = true
			}
		}
	}
	cands, _ = filter(cands, efr, est, "entry")
	had := cands

	// one symbolic iteration from the havocked header
	run := func(final bool) (backs []edgeState, exits []edgeState, outs []Outcome, wr *writeRec, writes []writeObs, hst *State) {
		hfr := efr.clone()
		st := est.clone()
		ex.regions++
		st.region = ex.regions
		st.alloc = 0
		st.assume(c, c.Le(btop, c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt)))
		for _, p := range phis {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			v := ex.freshVal(st, nm, p.Type(), false)
			hfr.env[p] = v
			// whatever it refers to exists by now
			if t, ok := v.(*Term); ok {
				top := c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt)
				switch p.Type().Underlying().(type) {
				case *types.Slice:
					if t.sort == SSlice {
						st.assume(c, c.Le(c.Sel("sl.arr", t), top))
					}
				case *types.Map, *types.Pointer:
					if t.sort == SInt {
						st.assume(c, c.Le(t, top))
					}
				}
			}
		}
		var keys []string
		for k := range modes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			s := ex.hsort[k]
			old := ex.H(st, k, s)
			ex.c.fresh++
			f := c.Sym(fmt.Sprintf("H%d.%s!%d", st.region, sanitize(k), ex.c.fresh), s)
			if ex.holdsRefs(k) {
				if ex.refTop == nil {
					ex.refTop = map[*Term]*Term{}
				}
				ex.refTop[f] = c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt)
			}
			if strings.HasPrefix(k, "IT:") {
				st.heaps[k] = c.Fresh("it", s)
				continue
			}
			var h *Term
			switch modes[k] {
			case "top":
				h = c.op("hav", s, old, btop, f)
			case "entry":
				h = c.op("hav", s, old, alloc0, f)
			default:
				h = f
			}
			for _, r := range invRefs[k] {
				_, es := arrElem(s)
				hv := c.Fresh("hv", es)
				if ex.holdsRefs(k) {
					top := c.Sym(fmt.Sprintf("ALLOC%d", st.region), SInt)
					switch es {
					case SInt:
						st.assume(c, c.Le(hv, top))
					case SSlice:
						ex.sliceFacts(st, hv)
						st.assume(c, c.Le(c.Sel("sl.arr", hv), top))
					}
				}
				h = c.Store(h, r, hv)
			}
			st.heaps[k] = h
		}
		if len(evNames) > 0 {
			st.trace = append(st.trace, &Event{loop: true, set: evNames, name: "loop"})
		}
		npc := len(st.pc)
		for _, cd := range cands {
			if t := ex.candTerm(cd, hfr, st); t != nil {
				st.assume(c, t)
			}
		}
		ex.tidy(st, npc)
		hst = st.clone()
		ctx := &loopCtx{l: l}
		ctx.onBack = func(f *Frame, s *State, a *ssa.BasicBlock) {
			g := f.clone()
			backs = append(backs, edgeState{g, s, a, l.header})
		}
		ctx.onExit = func(f *Frame, s *State, a, b *ssa.BasicBlock) {
			exits = append(exits, edgeState{f.clone(), s, a, b})
		}
		pushCtx(hfr, ctx)
		saved := ex.wr
		ex.wr = &writeRec{keys: map[string]bool{}, refs: map[string][]writeRef{}}
		nobl := len(ex.obls)
		tr := ex.trial
		ex.trial = 0
		if !final {
			ex.dry++
		}
		outs = ex.block(hfr, st, l.header, nil, 0)
		ex.trial = tr
		if !final {
			ex.dry--
			ex.obls = ex.obls[:nobl]
		}
		wr = ex.wr
		ex.wr = saved
		if saved != nil {
			for k := range wr.keys {
				saved.keys[k] = true
			}
			for k, r := range wr.refs {
				saved.refs[k] = append(saved.refs[k], r...)
			}
		}
		return
	}
	_ = token.NoPos
	for round := 0; ; round++ {
		if round > 60 {
			unsup("loop invariant search did not converge")
		}
		startSyms := c.n
		backs, exits, outs, wr, _, _ := run(false)
		changed := false
		// newly written heaps
		for k := range wr.keys {
			if _, ok := modes[k]; !ok {
				modes[k] = "top"
				changed = true
			}
		}
		// events
		names := map[string]bool{}
		scan := func(s *State) {
			for i := len(est.trace); i < len(s.trace); i++ {
				e := s.trace[i]
				if e.loop {
					for n := range e.set {
						names[n] = true
					}
				} else {
					names[e.name] = true
				}
			}
		}
		for _, b := range backs {
			scan(b.st)
		}
		for _, b := range exits {
			scan(b.st)
		}
		for _, o := range outs {
			scan(o.st)
		}
		for n := range names {
			if !evNames[n] {
				ev := map[string]bool{}
				for x := range evNames {
					ev[x] = true
				}
				ev[n] = true
				evNames = ev
				changed = true
			}
		}
		if changed {
			continue
		}
		// framing of writes: which objects may the loop have changed
		for k, refs := range wr.refs {
			if strings.HasPrefix(k, "IT:") || modes[k] == "full" {
				continue
			}
			for _, w := range refs {
				r := w.r
				if an, _, ok := c.allocOf(r); ok && allocIdx(an) > est.region {
					continue
				}
				if !newerThan(r, startSyms) {
					dup := false
					for _, x := range invRefs[k] {
						if x == r {
							dup = true
						}
					}
					if !dup {
						invRefs[k] = append(invRefs[k], r)
						changed = true
					}
					continue
				}
				// provably allocated inside the loop / the function?
				okm := ""
				bounds := []struct {
					m string
					b *Term
				}{{"top", btop}, {"entry", alloc0}}
				for _, bd := range bounds {
					if modes[k] == "entry" && bd.m == "top" {
						continue
					}
					if ex.plain(w.pc, c.Lt(bd.b, r), 250).Status == "unsat" {
						okm = bd.m
						break
					}
				}
				// or one of the objects the function may write anyway?
				if okm == "" && modes[k] != "full" {
					own := ex.declared(ex.ct)[k]
					g := c.Lt(alloc0, r)
					for _, x := range own {
						g = c.Or(g, c.Eq(r, x))
					}
					if len(own) > 0 && (ex.plain(w.pc, g, 400).Status == "unsat" || ex.prove(w.pc, g, 1500, false).Status == "unsat") {
						okm = "entry"
						for _, x := range own {
							if !containsTerm(invRefs[k], x) {
								invRefs[k] = append(invRefs[k], x)
								changed = true
							}
						}
					}
				}
				if okm == "" {
					okm = "full"
				}
				if okm != modes[k] {
					if os.Getenv("GOV_HOUDINI") != "" {
						fmt.Fprintf(os.Stderr, "  heap %s -> %s because of %s in %s\n", k, okm, r.render(6), fr0.fn)
					}
					modes[k] = okm
					changed = true
					break
				}
			}
		}
		if changed {
			continue
		}
		// preservation
		dropped := 0
		for _, b := range backs {
			bf := b.fr.clone()
			ex.phis(bf, b.st, l.header, b.from)
			var d int
			cands, d = filter(cands, bf, b.st, "step")
			dropped += d
		}
		if dropped == 0 {
			break
		}
	}
	if os.Getenv("GOV_HOUDINI") != "" {
		for _, cd := range cands {
			fmt.Fprintf(os.Stderr, "  keep %s in %s\n", cd.name, fr0.fn)
		}
		fmt.Fprintln(os.Stderr, "  modes", modes)
	}
	if ex.learn[hkey] == nil {
		ex.learn[hkey] = &loopHint{Modes: map[string]string{}}
	}
	ex.learn[hkey].add(cands, modes, evNames)
	if key != nil {
		m := map[string]bool{}
		for n := range ex.loopDrop[key] {
			m[n] = true
		}
		for _, cd := range had {
			if !containsCand(cands, cd) {
				m[cd.name] = true
			}
		}
		ex.loopDrop[key] = m
	}
	for _, cd := range cands {
		o := &Obligation{Fn: fnKey(ex.fn.String()), Kind: "invariant", Name: cd.name, Status: "discharged", Backend: "z3-new"}
		if cd.user {
			ex.obls = append(ex.obls, o)
		}
	}
	_, exits, outs, _, _, _ := run(true)
	return append(outs, ex.resumeExits(exits)...)
}

func hardKey(phase string, b *ssa.BasicBlock, name string) string {
	return fmt.Sprintf("%s %s %d %s", phase, b.Parent(), b.Index, name)
}

func containsCand(cs []*cand, x *cand) bool {
	for _, y := range cs {
		if x == y {
			return true
		}
	}
	return false
}

func containsTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// newerThan: t mentions a symbol created after term counter n.
func newerThan(t *Term, n int) bool {
	if t.id <= n {
		return false
	}
	if t.op == "sym" {
		return t.id > n
	}
	for _, a := range t.args {
		if newerThan(a, n) {
			return true
		}
	}
	return false
}

func (ex *Exec) candTerm(cd *cand, fr *Frame, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return cd.f(fr, st)
}

func (ex *Exec) loopCands(fr0, efr *Frame, est *State, l *loop, phis []*ssa.Phi, btop *Term) []*cand {
	c := ex.c
	var cs []*cand
	add := func(name string, user bool, f func(fr *Frame, st *State) *Term) {
		cs = append(cs, &cand{name, user, nil, false, f})
	}
	pv := func(p *ssa.Phi) func(fr *Frame, st *State) *Term {
		return func(fr *Frame, st *State) *Term { return ex.term(st, fr.env[p]) }
	}
	// bounds appearing in conditions of the loop
	var bounds []ssa.Value
	for b := range l.body {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.LEQ || bo.Op == token.GTR || bo.Op == token.GEQ || bo.Op == token.NEQ) {
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if _, isc := v.(*ssa.Const); isc {
						bounds = append(bounds, v)
						continue
					}
					if i, ok := v.(ssa.Instruction); ok && l.body[i.Block()] {
						continue
					}
					bounds = append(bounds, v)
				}
			}
		}
	}
	alloc0 := c.Sym("ALLOC0", SInt)
	var intPhis []*ssa.Phi
	for _, p := range phis {
		p := p
		if s, ok := sortOf(p.Type()); ok && s == SInt {
			if _, isb := p.Type().Underlying().(*types.Basic); isb {
				intPhis = append(intPhis, p)
			}
		}
	}
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		} else {
			nm += "(" + p.Name() + ")"
		}
		s, ok := sortOf(p.Type())
		if !ok {
			continue
		}
		ev := efr.env[p]
		get := pv(p)
		add(nm+" unchanged", false, func(fr *Frame, st *State) *Term { return c.Eq(get(fr, st), ex.term(st, ev)) })
		switch s {
		case SInt:
			if _, isb := p.Type().Underlying().(*types.Basic); !isb {
				add(nm+" non-nil", false, func(fr *Frame, st *State) *Term { return c.Not(c.Eq(get(fr, st), c.Int(0))) })
				continue
			}
			add(nm+" >= initial", false, func(fr *Frame, st *State) *Term { return c.Le(ex.term(st, ev), get(fr, st)) })
			add(nm+" <= initial", false, func(fr *Frame, st *State) *Term { return c.Le(get(fr, st), ex.term(st, ev)) })
			for _, bv := range bounds {
				bv := bv
				if bs, ok := sortOf(bv.Type()); !ok || bs != SInt {
					continue
				}
				add(nm+" < bound "+bv.Name(), false, func(fr *Frame, st *State) *Term { return c.Lt(get(fr, st), ex.term(st, ex.val(fr, st, bv))) })
				add(nm+" <= bound "+bv.Name(), false, func(fr *Frame, st *State) *Term { return c.Le(get(fr, st), ex.term(st, ex.val(fr, st, bv))) })
			}
		case SSlice:
			add(nm+" backing array allocated here", false, func(fr *Frame, st *State) *Term { return c.Lt(alloc0, c.Sel("sl.arr", get(fr, st))) })
			add(nm+" writable only if allocated in the loop", false, func(fr *Frame, st *State) *Term {
				return c.Or(c.Lt(btop, c.Sel("sl.arr", get(fr, st))), c.Eq(c.Sel("sl.cap", get(fr, st)), c.Int(0)))
			})
			add(nm+" writable only if allocated here", false, func(fr *Frame, st *State) *Term {
				return c.Or(c.Lt(alloc0, c.Sel("sl.arr", get(fr, st))), c.Eq(c.Sel("sl.cap", get(fr, st)), c.Int(0)))
			})
			add(nm+" nil or non-empty", false, func(fr *Frame, st *State) *Term {
				return c.Or(c.Not(c.Eq(c.Sel("sl.arr", get(fr, st)), c.Int(0))), c.Eq(c.Sel("sl.len", get(fr, st)), c.Int(0)))
			})
			add(nm+" offset 0", false, func(fr *Frame, st *State) *Term { return c.Eq(c.Sel("sl.off", get(fr, st)), c.Int(0)) })
			add(nm+" non-nil", false, func(fr *Frame, st *State) *Term { return c.Not(c.Eq(c.Sel("sl.arr", get(fr, st)), c.Int(0))) })
			for _, q := range intPhis {
				for k := int64(0); k < 2; k++ {
					k := k
					gq := pv(q)
					add(fmt.Sprintf("len(%s) == %s+%d", nm, q.Name(), k), false, func(fr *Frame, st *State) *Term {
						return c.Eq(c.Sel("sl.len", get(fr, st)), c.Add(gq(fr, st), c.Int(k)))
					})
					add(fmt.Sprintf("len(%s) <= %s+%d", nm, q.Name(), k), false, func(fr *Frame, st *State) *Term {
						return c.Le(c.Sel("sl.len", get(fr, st)), c.Add(gq(fr, st), c.Int(k)))
					})
				}
			}
		case SIface:
			add(nm+" nil", false, func(fr *Frame, st *State) *Term { return c.Eq(get(fr, st), c.INil()) })
		}
	}
	// slices built up side by side do not share their arrays
	for i, p := range phis {
		for _, q := range phis[:i] {
			if _, ok := p.Type().Underlying().(*types.Slice); !ok || !types.Identical(p.Type(), q.Type()) {
				continue
			}
			p, q := p, q
			add(fmt.Sprintf("%s(%s), %s(%s) apart", p.Comment, p.Name(), q.Comment, q.Name()), false, func(fr *Frame, st *State) *Term {
				a, b := ex.term(st, fr.env[p]), ex.term(st, fr.env[q])
				return c.Or(c.Not(c.Eq(c.Sel("sl.arr", a), c.Sel("sl.arr", b))), c.Eq(c.Sel("sl.cap", a), c.Int(0)), c.Eq(c.Sel("sl.cap", b), c.Int(0)))
			})
		}
	}
	// string iterators in the loop
	for b := range l.body {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := efr.env[nx.Iter].(*IterV); ok && it.kind == "str" {
					add("iterator in range", false, func(fr *Frame, st *State) *Term {
						p := ex.H(st, it.id, SInt)
						return c.And(c.Le(c.Int(0), p), c.Le(p, c.Len(it.x)))
					})
				}
			}
		}
	}
	// templates of the contract
	if ex.ct != nil {
		for _, inv := range ex.ct.invs {
			cs = append(cs, ex.templateCands(inv, fr0, efr, est, l, phis)...)
		}
	}
	return cs
}

type holeVal struct {
	name   string
	moving bool
	f      func(fr *Frame, st *State) Val
}

func (ex *Exec) templateCands(inv *Clause, fr0, efr *Frame, est *State, l *loop, phis []*ssa.Phi) []*cand {
	// candidate values for each hole
	var holes [][]holeVal
	for _, h := range inv.holes {
		var vs []holeVal
		for _, p := range phis {
			p := p
			if types.Identical(p.Type(), h.Type()) {
				nm := p.Comment
				if nm == "" {
					nm = p.Name()
				}
				vs = append(vs, holeVal{nm, true, func(fr *Frame, st *State) Val { return fr.env[p] }})
				if s, ok := sortOf(p.Type()); ok && s == SInt {
					vs = append(vs, holeVal{nm + "+1", true, func(fr *Frame, st *State) Val {
						return ex.c.Add(ex.term(st, fr.env[p]), ex.c.Int(1))
					}})
				}
			}
		}
		// iterators
		for b := range l.body {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					it, ok := efr.env[nx.Iter].(*IterV)
					if !ok {
						continue
					}
					if it.kind == "str" && types.Identical(h.Type(), types.Typ[types.Int]) {
						vs = append(vs, holeVal{"iterpos", true, func(fr *Frame, st *State) Val { return ex.H(st, it.id, SInt) }})
					}
					if it.kind == "map" {
						if n, ok := h.Type().(*types.Named); ok && n.Obj().Name() == "Visited" {
							if types.Identical(n.TypeArgs().At(0), it.typ.Underlying().(*types.Map).Key()) {
								ks := mustSort(it.typ.Underlying().(*types.Map).Key())
								vs = append(vs, holeVal{"visited", true, func(fr *Frame, st *State) Val { return &setV{ex.H(st, it.id, SArr(ks, SBool))} }})
							}
						}
					}
				}
			}
		}
		// variables living in cells
		for v, x := range efr.env {
			al, ok := v.(*ssa.Alloc)
			if !ok {
				continue
			}
			T := al.Type().Underlying().(*types.Pointer).Elem()
			if !types.Identical(T, h.Type()) {
				continue
			}
			if loc, ok := x.(*Loc); ok {
				vs = append(vs, holeVal{"*" + al.Comment, true, func(fr *Frame, st *State) Val { return ex.load(st, loc) }})
			}
		}
		for v, x := range efr.env {
			fv, ok := v.(*ssa.FreeVar)
			if !ok {
				continue
			}
			pt, ok := fv.Type().Underlying().(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), h.Type()) {
				continue
			}
			if loc, ok := x.(*Loc); ok {
				vs = append(vs, holeVal{"*" + fv.Name(), true, func(fr *Frame, st *State) Val { return ex.load(st, loc) }})
			}
		}
		// values computed before the loop and used in it
		for b := range l.body {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					v := *op
					if v == nil || isOpaqueType(v.Type()) || !types.Identical(v.Type(), h.Type()) {
						continue
					}
					switch v.(type) {
					case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
						continue
					}
					if _, ok := efr.env[v]; !ok {
						continue
					}
					dup := false
					for _, x := range vs {
						if x.name == v.Name() {
							dup = true
						}
					}
					if isPhiOf(phis, v) || dup {
						continue
					}
					vs = append(vs, holeVal{v.Name(), false, func(fr *Frame, st *State) Val { return fr.env[v] }})
				}
			}
		}
		// the counters of enclosing loops
		if types.Identical(h.Type(), types.Typ[types.Int]) {
			for v := range efr.env {
				p, ok := v.(*ssa.Phi)
				if !ok || l.body[p.Block()] || !types.Identical(p.Type(), h.Type()) || efr.env[v] == nil {
					continue
				}
				if o := ex.loopsOf(p.Parent()).byHeader[p.Block()]; o == nil || !o.body[l.header] {
					continue
				}
				vs = append(vs, holeVal{p.Name(), false, func(fr *Frame, st *State) Val { return fr.env[p] }},
					holeVal{p.Name() + "+1", false, func(fr *Frame, st *State) Val {
						return ex.c.Add(ex.term(st, fr.env[p]), ex.c.Int(1))
					}})
			}
		}
		// other objects the function works on
		switch h.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			for v := range efr.env {
				in, ok := v.(ssa.Instruction)
				if !ok || l.body[in.Block()] || isOpaqueType(v.Type()) || !types.Identical(v.Type(), h.Type()) || isPhi(v) || efr.env[v] == nil {
					continue
				}
				dup := false
				for _, x := range vs {
					if x.name == v.Name() {
						dup = true
					}
				}
				if !dup {
					v := v
					vs = append(vs, holeVal{v.Name(), false, func(fr *Frame, st *State) Val { return fr.env[v] }})
				}
			}
		}
		sort.SliceStable(vs, func(i, j int) bool { return vs[i].name < vs[j].name })
		if len(vs) == 0 {
			return nil
		}
		// a variable of the very name is what is meant
		if s, ok := sortOf(h.Type()); !ok || s != SInt || !isBasic(h.Type()) {
			for _, x := range vs {
				if x.moving && x.name == h.Name() {
					vs = []holeVal{x}
					break
				}
			}
		}
		holes = append(holes, vs)
	}
	var out []*cand
	var rec func(i int, cur []holeVal)
	rec = func(i int, cur []holeVal) {
		if len(out) > 400 {
			return
		}
		if i == len(holes) {
			sel := append([]holeVal(nil), cur...)
			nm := inv.name + "("
			mv := false
			for k, s := range sel {
				if k > 0 {
					nm += ","
				}
				nm += s.name
				mv = mv || s.moving
			}
			out = append(out, &cand{nm + ")", true, inv, mv, func(fr *Frame, st *State) *Term {
				var vs []Val
				for _, s := range sel {
					vs = append(vs, s.f(fr, st))
				}
				return ex.evalInv(inv, vs, st)
			}})
			return
		}
		for _, h := range holes[i] {
			rec(i+1, append(cur, h))
		}
	}
	rec(0, nil)
	return out
}

func isBasic(T types.Type) bool { _, ok := T.Underlying().(*types.Basic); return ok }

func isPhiOf(phis []*ssa.Phi, v ssa.Value) bool {
	for _, p := range phis {
		if p == v {
			return true
		}
	}
	return false
}

// setV: a ghost set given by its characteristic array.
type setV struct{ t *Term }

// isOpaqueType: a type of the SSA form that go/types does not know (range
// iterators).
func isOpaqueType(T types.Type) bool {
	switch T.(type) {
	case *types.Basic, *types.Array, *types.Slice, *types.Struct, *types.Pointer, *types.Tuple, *types.Signature, *types.Interface, *types.Map, *types.Chan, *types.Named, *types.TypeParam, *types.Alias, *types.Union:
		return false
	}
	return true
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }
