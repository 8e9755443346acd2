package main

import "strings"

// Escape tracking of objects allocated by the function under verification.
// An object whose reference was never stored into another object and never
// handed to a call we do not execute symbolically cannot be reached from
// anywhere else: calls with arbitrary effects leave it alone, and recursive
// specification functions applied to other objects do not depend on it.

type escSet struct {
	seen, escaped map[*Term]bool
	holds         map[*Term][]*Term // what was stored in an object that has not escaped
}

// rootRef: the object a part of which t refers to.
func rootRef(t *Term) *Term {
	for t.op == "app" && (strings.HasPrefix(t.sval, "sub.") || strings.HasPrefix(t.sval, "el.")) {
		t = t.args[0]
	}
	return t
}

func (st *State) escapes() *escSet {
	if st.esc == nil {
		st.esc = &escSet{map[*Term]bool{}, map[*Term]bool{}, map[*Term][]*Term{}}
	}
	return st.esc
}

func (e *escSet) clone() *escSet {
	n := &escSet{make(map[*Term]bool, len(e.seen)), make(map[*Term]bool, len(e.escaped)), make(map[*Term][]*Term, len(e.holds))}
	for k := range e.seen {
		n.seen[k] = true
	}
	for k := range e.escaped {
		n.escaped[k] = true
	}
	for k, v := range e.holds {
		n.holds[k] = v[:len(v):len(v)]
	}
	return n
}

func (ex *Exec) escTerm(st *State, t *Term) {
	e := st.escapes()
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	if t.sort == SInt {
		if _, _, ok := ex.c.allocOf(t); ok {
			e.escaped[t] = true
			ex.escContents(st, t)
			return
		}
		if l, ok := ex.locs[t]; ok && l.ref != nil && l.ref != t {
			ex.escTerm(st, l.ref)
		}
		if f, ok := ex.closures[t]; ok {
			for _, b := range f.binds {
				ex.escVal(st, b)
			}
			return
		}
	}
	switch t.op {
	case "select":
		// a value read from somewhere: whatever was stored there gets out
		k := t.args[1]
		if k.sort == SInt {
			k = rootRef(k)
		}
		if _, _, ok := ex.c.allocOf(k); ok && k.sort == SInt {
			ex.escContents(st, k)
		} else {
			ex.escTerm(st, t.args[1])
		}
		ex.escStored(st, t.args[0])
	case "store":
		ex.escStored(st, t)
	default:
		for _, a := range t.args {
			ex.escTerm(st, a)
		}
	}
}

func (ex *Exec) escContents(st *State, t *Term) {
	vs := st.escapes().holds[t]
	for _, v := range vs {
		ex.escTerm(st, v)
	}
}

func (ex *Exec) escStored(st *State, h *Term) {
	for h.op == "store" {
		ex.escTerm(st, h.args[2])
		h = h.args[0]
	}
	if h.op != "sym" {
		ex.escTerm(st, h)
	}
}

// noteStore: v is stored in the object ref. It escapes with that object.
func (ex *Exec) noteStore(st *State, ref, v *Term) {
	if ref.sort == SInt {
		own := ref
		ref = rootRef(ref)
		if _, _, ok := ex.c.allocOf(ref); ok && !st.escapes().escaped[ref] {
			holds := st.escapes().holds
			for v.op == "store" {
				holds[ref] = append(holds[ref], v.args[2])
				v = v.args[0]
			}
			if v.op == "select" && v.args[1] == own {
				return // its own contents, noted before
			}
			holds[ref] = append(holds[ref], v)
			return
		}
	}
	ex.escTerm(st, v)
}

func (ex *Exec) escVal(st *State, v Val) {
	switch x := v.(type) {
	case nil:
	case *Term:
		ex.escTerm(st, x)
	case *Loc:
		if x.ref != nil {
			ex.escTerm(st, x.ref)
		}
	case *FuncV:
		for _, b := range x.binds {
			ex.escVal(st, b)
		}
	case *StructV:
		for _, f := range x.f {
			ex.escVal(st, f)
		}
	case *TupleV:
		for _, f := range x.v {
			ex.escVal(st, f)
		}
	}
}

func (ex *Exec) escVals(st *State, vs []Val) {
	for _, v := range vs {
		ex.escVal(st, v)
	}
}

// localRef: an object allocated here which nothing else can reach.
func (ex *Exec) localRef(st *State, k *Term) bool {
	if k.sort != SInt {
		return false
	}
	k = rootRef(k)
	if st.escapes().escaped[k] {
		return false
	}
	_, _, ok := ex.c.allocOf(k)
	return ok
}

// keepLocals carries the contents of unescaped objects over to a new heap.
func (ex *Exec) keepLocals(st *State, old *Term, base *Term) *Term {
	var ks []*Term
	seen := map[*Term]bool{}
	for h := old; h.op == "store"; h = h.args[0] {
		if k := h.args[1]; !seen[k] && ex.localRef(st, k) {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	for i := len(ks) - 1; i >= 0; i-- {
		base = ex.c.Store(base, ks[i], ex.c.Select(old, ks[i]))
	}
	return base
}

// dropLocals removes from heaps the objects that are not reachable from args.
func (ex *Exec) dropLocals(st *State, args []*Term, heaps []*Term) []*Term {
	occ := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sort == SInt {
			if _, _, ok := ex.c.allocOf(t); ok {
				occ[t] = true
				for _, v := range st.escapes().holds[t] {
					walk(v)
				}
				return
			}
			if l, ok := ex.locs[t]; ok && l.ref != nil && l.ref != t {
				walk(l.ref)
			}
			if f, ok := ex.closures[t]; ok {
				for _, b := range f.binds {
					if bt, ok := b.(*Term); ok {
						walk(bt)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range args {
		walk(a)
	}
	out := make([]*Term, len(heaps))
	for i, h := range heaps {
		out[i] = h
		var stack []*Term
		drop := false
		for h.op == "store" {
			k := h.args[1]
			if ex.localRef(st, k) && !occ[rootRef(k)] {
				drop = true
			} else {
				stack = append(stack, h)
			}
			h = h.args[0]
		}
		if !drop {
			continue
		}
		for j := len(stack) - 1; j >= 0; j-- {
			h = ex.c.Store(h, stack[j].args[1], stack[j].args[2])
		}
		out[i] = h
	}
	return out
}
