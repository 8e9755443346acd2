package main

import (
	"math/big"
	"strings"
)

// reduce simplifies a query before it goes to the solvers: symbols and texts
// of line lists that the facts equate to other terms are replaced by these,
// and subterms the facts decide become true or false. Only equivalences and
// weakenings of the facts are used, so a proof of the reduced query is one of
// the query.
func (ex *Exec) reduce(as []*Term, goal *Term) ([]*Term, *Term) {
	c := ex.c
	m := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	var res func(t *Term) *Term
	res = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if x, ok := m[t]; ok {
			r = res(x)
		} else if len(t.args) == 0 {
			return t
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = res(a)
				ch = ch || args[i] != a
			}
			r = t
			if ch {
				r = c.rebuild(t, args)
				if x, ok := m[r]; ok {
					r = res(x)
				}
			}
		}
		memo[t] = r
		return r
	}
	may := func(a *Term) bool {
		if a.bound {
			return false
		}
		switch a.op {
		case "sym":
			return !strings.HasPrefix(a.sval, "ALLOC") && !strings.HasPrefix(a.sval, "INIT") && !strings.HasPrefix(a.sval, "H0.") && !strings.HasPrefix(a.sval, "arg.")
		case "app":
			return a.sval == "Lines"
		}
		return false
	}
	// an equation that holds is used to eliminate its newer side
	put := func(a, b *Term) bool {
		if a == b || a.bound || b.bound {
			return false
		}
		if !may(a) || may(b) && b.id > a.id && (a.op == b.op || b.op == "sym") {
			a, b = b, a
		}
		for k := 0; k < 2; k++ {
			if may(a) && !termMentions(b, a, map[*Term]bool{}) {
				m[a] = b
				memo = map[*Term]*Term{}
				return true
			}
			a, b = b, a
		}
		return false
	}
	facts := as
	type key struct{ a, b *Term }
	for round := 0; round < 3; round++ {
		n := len(m)
		ub := map[key]*big.Int{}
		bound := func(a, b *Term, k *big.Int) { // a - b <= k
			if old := ub[key{a, b}]; old == nil || k.Cmp(old) < 0 {
				ub[key{a, b}] = k
			}
		}
		var order []key
		for _, f := range facts {
			switch {
			case f.op == "=":
				put(res(f.args[0]), res(f.args[1]))
			case f.op == "<=" || f.op == "not" && f.args[0].op == "<=":
				l := f
				if f.op == "not" {
					l = f.args[0]
				}
				if l.bound {
					continue
				}
				a, ka := c.splitOff(l.args[0])
				b, kb := c.splitOff(l.args[1])
				d := new(big.Int).Sub(kb, ka)
				if f.op == "not" { // b + kb < a + ka
					bound(b, a, new(big.Int).Sub(new(big.Int).Neg(d), big.NewInt(1)))
					order = append(order, key{b, a})
				} else {
					bound(a, b, d)
					order = append(order, key{a, b})
				}
			}
		}
		for _, k := range order {
			u, v := ub[k], ub[key{k.b, k.a}]
			if u == nil || v == nil || new(big.Int).Add(u, v).Sign() != 0 || k.a == nil && k.b == nil {
				continue
			}
			// a = b + u
			a, b := k.a, k.b
			if a == nil || a.op != "sym" {
				a, b, u = b, a, new(big.Int).Neg(u)
			}
			rhs := c.BigInt(u)
			if b != nil {
				rhs = c.Add(b, rhs)
			}
			if a != nil {
				put(res(a), res(rhs))
			}
		}
		if len(m) == n {
			break
		}
		var out []*Term
		seen := map[*Term]bool{}
		var add func(f *Term)
		add = func(f *Term) {
			if f.op == "and" {
				for _, a := range f.args {
					add(a)
				}
				return
			}
			if f != c.T && !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
		for _, f := range facts {
			add(res(f))
		}
		facts = out
		goal = res(goal)
		if goal == c.T {
			return facts, goal
		}
	}
	// clauses that do not apply
	var out, ors []*Term
	for _, f := range facts {
		if f.op == "or" {
			ors = append(ors, f)
		} else {
			out = append(out, f)
		}
	}
	if len(ors) > 0 {
		gm := ex.givenMap(out)
		for _, f := range ors {
			if f = c.Subst(f, gm); f == c.T {
				continue
			}
			if f.op == "and" {
				out = append(out, f.args...)
			} else {
				out = append(out, f)
			}
		}
	}
	return out, ex.given(out, goal)
}
