package main

// Quantifier handling before the solver sees a query: existential quantifiers
// get constants, universal hypotheses are instantiated with the index terms
// that occur in the query. Every added fact is a consequence of the
// hypotheses (or of the negated goal), so this only helps the solver.

func hasForall(t *Term, memo map[*Term]bool) bool {
	if t.op == "forall" {
		return true
	}
	if t.sort != SBool {
		return false
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	switch t.op {
	case "not", "and", "or", "ite":
		for _, a := range t.args {
			if hasForall(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

// skolem replaces existential quantifiers of a hypothesis (pos) or of a
// negated one by constants.
func (ex *Exec) skolem(t *Term, pos bool, memo map[*Term]bool) *Term {
	c := ex.c
	if !hasForall(t, memo) {
		return t
	}
	switch t.op {
	case "forall":
		if pos || t.bound {
			return t
		}
		return ex.skolem(ex.skolemBody(t), pos, memo)
	case "not":
		return c.Not(ex.skolem(t.args[0], !pos, memo))
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, ex.skolem(a, pos, memo))
		}
		if t.op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "ite":
		g := t.args[0]
		if hasForall(g, memo) {
			return t
		}
		a, b := ex.skolem(t.args[1], pos, memo), ex.skolem(t.args[2], pos, memo)
		return c.And(c.Or(c.Not(g), a), c.Or(g, b))
	}
	return t
}

func (ex *Exec) skolemBody(q *Term) *Term {
	c := ex.c
	if ex.skolems == nil {
		ex.skolems = map[*Term]*Term{}
		ex.skConsts = map[*Term]bool{}
	}
	if b, ok := ex.skolems[q]; ok {
		return b
	}
	m := map[*Term]*Term{}
	for _, v := range q.bvars {
		k := c.Fresh("sk", v.sort)
		ex.skConsts[k] = true
		m[v] = k
	}
	b := c.Subst(q.args[0], m)
	ex.skolems[q] = b
	return b
}

// univ collects the universal quantifiers of a hypothesis in positive
// positions.
func univ(t *Term, pos bool, memo map[*Term]bool, out *[]*Term) {
	if !hasForall(t, memo) {
		return
	}
	switch t.op {
	case "forall":
		if pos && !t.bound {
			*out = append(*out, t)
		}
	case "not":
		univ(t.args[0], !pos, memo, out)
	case "and", "or":
		for _, a := range t.args {
			univ(a, pos, memo, out)
		}
	}
}

type idxPat struct {
	key  string
	bv   *Term
	base *Term // nil: the index is the variable itself
}

func arrKeys(a *Term) []string {
	out := []string{}
	if a.op == "select" {
		out = append(out, string(a.sort)+"@"+itoaInt(a.args[1].id))
	} else {
		out = append(out, "="+itoaInt(a.id))
	}
	return out
}

func itoaInt(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.bound {
		return false
	}
	for _, a := range t.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// instantiate adds instances of universal hypotheses.
func (ex *Exec) instantiate(facts []*Term, goal *Term) []*Term {
	c := ex.c
	memo := map[*Term]bool{}
	any := false
	for _, f := range facts {
		if hasForall(f, memo) {
			any = true
		}
	}
	ng := c.Not(goal)
	if !any && !hasForall(ng, memo) {
		return facts
	}
	hyps := make([]*Term, 0, len(facts))
	for _, f := range facts {
		g := ex.skolem(f, true, memo)
		hyps = append(hyps, g)
	}
	sg := ex.skolem(ng, true, memo)
	out := append([]*Term(nil), hyps...)
	work := append(append([]*Term(nil), hyps...), sg)
	if sg != ng {
		out = append(out, sg)
	}
	done := map[*Term]bool{}
	ground := map[string]map[*Term]bool{}
	sks := map[Sort][]*Term{}
	seenSk := map[*Term]bool{}
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			scan(a)
		}
		if ex.skConsts[t] && !seenSk[t] {
			seenSk[t] = true
			sks[t.sort] = append(sks[t.sort], t)
		}
		if t.op == "select" && !t.args[1].bound && !t.args[0].bound {
			for _, k := range arrKeys(t.args[0]) {
				if ground[k] == nil {
					ground[k] = map[*Term]bool{}
				}
				ground[k][t.args[1]] = true
			}
		}
	}
	total := 0
	scanned := 0
	for round := 0; round < 3; round++ {
		for ; scanned < len(work); scanned++ {
			scan(work[scanned])
		}
		var add []*Term
		for _, h := range append([]*Term(nil), work...) {
			var qs []*Term
			univ(h, true, memo, &qs)
			for _, q := range qs {
				for _, tuple := range ex.tuples(q, ground, sks) {
					m := map[*Term]*Term{}
					for i, v := range q.bvars {
						m[v] = tuple[i]
					}
					b := c.Subst(q.args[0], m)
					inst := ex.skolem(c.Subst(h, map[*Term]*Term{q: b}), true, memo)
					if inst == c.T || inst == h || done[inst] {
						continue
					}
					done[inst] = true
					add = append(add, inst)
					total++
					if total > 500 {
						break
					}
				}
			}
		}
		if len(add) == 0 {
			break
		}
		for _, a := range add {
			out = append(out, a)
			work = append(work, a)
		}
		if total > 500 {
			break
		}
	}
	return out
}

func (ex *Exec) tuples(q *Term, ground map[string]map[*Term]bool, sks map[Sort][]*Term) [][]*Term {
	c := ex.c
	cands := map[*Term][]*Term{}
	have := map[*Term]map[*Term]bool{}
	put := func(v, t *Term) {
		if t.bound || t.sort != v.sort {
			return
		}
		if have[v] == nil {
			have[v] = map[*Term]bool{}
		}
		if !have[v][t] {
			have[v][t] = true
			cands[v] = append(cands[v], t)
		}
	}
	for _, v := range q.bvars {
		for _, s := range sks[v.sort] {
			put(v, s)
		}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op != "select" || t.args[0].bound {
			return
		}
		I := t.args[1]
		for _, v := range q.bvars {
			if !mentions(I, v) {
				continue
			}
			var base *Term
			if I != v {
				if v.sort != SInt {
					continue
				}
				base = c.Sub(I, v)
				if base.bound {
					continue
				}
			}
			for _, k := range arrKeys(t.args[0]) {
				var idx []*Term
				for g := range ground[k] {
					idx = append(idx, g)
				}
				sortTerms(idx)
				for _, g := range idx {
					if base == nil {
						put(v, g)
					} else {
						put(v, c.Sub(g, base))
					}
				}
			}
		}
	}
	walk(q.args[0])
	out := [][]*Term{nil}
	for _, v := range q.bvars {
		cs := cands[v]
		if len(cs) == 0 {
			return nil
		}
		if len(cs) > 14 {
			cs = cs[:14]
		}
		var next [][]*Term
		for _, o := range out {
			for _, t := range cs {
				next = append(next, append(append([]*Term(nil), o...), t))
			}
		}
		out = next
		if len(out) > 120 {
			out = out[:120]
		}
	}
	return out
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}
