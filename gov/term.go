package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort name, e.g. "Int", "Bool", "String", "Iface", "Slice",
// "Flt", "(Array Int Int)".
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "String"
	SIface Sort = "Iface"
	SSlice Sort = "Slice"
	SFlt   Sort = "Flt"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func arrElem(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	in := str[7 : len(str)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

// Term is a hash-consed SMT term.
type Term struct {
	op    string // see below
	args  []*Term
	sort  Sort
	ival  *big.Int
	sval  string
	id    int
	bound bool // contains a bound variable
	old   bool // a reference known to be allocated before the function started
	bvars []*Term
	pats  []*Term
}

// op values:
//   "int" "str" "true" "false" constants; "sym" named constant (sval);
//   "app" uninterpreted application (sval function name)
//   "bv" bound variable; "forall"
//   everything else: SMT-LIB operator of that name
//   "hav": (hav H B F) heap equal to H on refs <= B, F elsewhere

type Ctx struct {
	tab   map[string]*Term
	n     int
	fresh int
	// signatures of uninterpreted functions
	funs map[string]string
	syms map[string]Sort
	// definitions of recursive spec functions, unfolded on demand
	unfold map[string]func(args []*Term) *Term
	// facts attached to uninterpreted applications (axiom instances)
	facts map[string]func(t *Term) []*Term
	T, F  *Term
	order []*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]string{}, syms: map[string]Sort{}, unfold: map[string]func([]*Term) *Term{}, facts: map[string]func(*Term) []*Term{}}
	c.T = c.mk(&Term{op: "true", sort: SBool})
	c.F = c.mk(&Term{op: "false", sort: SBool})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	b.WriteByte('|')
	if t.ival != nil {
		b.WriteString(t.ival.String())
	}
	fmt.Fprintf(&b, "%q", t.sval)
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, a := range t.bvars {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, a := range t.pats {
		fmt.Fprintf(&b, ":%d", a.id)
	}
	k := b.String()
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.n++
	t.id = c.n
	if t.op == "bv" {
		t.bound = true
	}
	if t.op != "forall" {
		for _, a := range t.args {
			if a.bound {
				t.bound = true
			}
		}
	} else {
		// nested quantifiers: bound if the body has bound vars not ours
		t.bound = hasOther(t.args[0], t.bvars)
	}
	c.tab[k] = t
	return t
}

func hasOther(t *Term, bvs []*Term) bool {
	if !t.bound {
		return false
	}
	if t.op == "bv" {
		for _, b := range bvs {
			if b == t {
				return false
			}
		}
		return true
	}
	if t.op == "forall" {
		return hasOther(t.args[0], append(append([]*Term{}, bvs...), t.bvars...))
	}
	for _, a := range t.args {
		if hasOther(a, bvs) {
			return true
		}
	}
	return false
}

func (c *Ctx) Int(i int64) *Term { return c.BigInt(big.NewInt(i)) }
func (c *Ctx) BigInt(i *big.Int) *Term {
	return c.mk(&Term{op: "int", sort: SInt, ival: new(big.Int).Set(i)})
}
func (c *Ctx) Str(s string) *Term { return c.mk(&Term{op: "str", sort: SStr, sval: s}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Sym(name string, s Sort) *Term {
	c.syms[name] = s
	return c.mk(&Term{op: "sym", sort: s, sval: name})
}
func (c *Ctx) OldSym(name string, s Sort) *Term {
	t := c.Sym(name, s)
	t.old = true
	return t
}
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Sym(fmt.Sprintf("%s!%d", sanitize(prefix), c.fresh), s)
}
func (c *Ctx) BV(name string, s Sort) *Term {
	c.fresh++
	return c.mk(&Term{op: "bv", sort: s, sval: fmt.Sprintf("%s?%d", sanitize(name), c.fresh)})
}
func (c *Ctx) App(name string, ret Sort, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := c.funs[name]; !ok {
		var ss []string
		for _, a := range args {
			ss = append(ss, string(a.sort))
		}
		c.funs[name] = "(" + strings.Join(ss, " ") + ") " + string(ret)
	}
	if len(args) == 0 {
		return c.Sym(name, ret)
	}
	return c.mk(&Term{op: "app", sort: ret, sval: name, args: args})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9':
			b.WriteRune(r)
		case strings.ContainsRune("_!?.$@&^%-+<>/~*=", r):
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) op(op string, s Sort, args ...*Term) *Term {
	return c.mk(&Term{op: op, sort: s, args: args})
}

func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false"
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.F
	case "false":
		return c.T
	case "not":
		return a.args[0]
	}
	return c.op("not", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == c.T || seen[a] {
			return true
		}
		if a == c.F {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.F
		}
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.op("and", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		var xs []*Term
		if a.op == "or" {
			xs = a.args
		} else {
			xs = []*Term{a}
		}
		for _, x := range xs {
			if x == c.T || seen[c.Not(x)] {
				return c.T
			}
			if x == c.F || seen[x] {
				continue
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return c.F
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.op("or", SBool, out...)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(x, a, b *Term) *Term {
	if x == c.T {
		return a
	}
	if x == c.F {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == c.T && b == c.F {
			return x
		}
		if a == c.F && b == c.T {
			return c.Not(x)
		}
		if a == c.T {
			return c.Or(x, b)
		}
		if b == c.F {
			return c.And(x, a)
		}
		if a == c.F {
			return c.And(c.Not(x), b)
		}
		if b == c.T {
			return c.Or(c.Not(x), a)
		}
	}
	return c.op("ite", a.sort, x, a, b)
}

// ---- references -----------------------------------------------------------

// splitOff decomposes an integer term as base + k.
func (c *Ctx) splitOff(t *Term) (*Term, *big.Int) {
	if t.op == "int" {
		return nil, t.ival
	}
	if t.op == "+" {
		last := t.args[len(t.args)-1]
		if last.op == "int" {
			if len(t.args) == 2 {
				return t.args[0], last.ival
			}
			return c.op("+", SInt, t.args[:len(t.args)-1]...), last.ival
		}
	}
	return t, big.NewInt(0)
}

// isAlloc reports whether t denotes an object allocated during execution
// (symbol ALLOCn + k with k>0).
func (c *Ctx) allocOf(t *Term) (string, int64, bool) {
	b, k := c.splitOff(t)
	if b != nil && b.op == "sym" && strings.HasPrefix(b.sval, "ALLOC") && k.Sign() > 0 {
		return b.sval, k.Int64(), true
	}
	return "", 0, false
}

func isOldRef(t *Term) bool {
	if t.old {
		return true
	}
	if t.op == "int" && t.ival.Sign() <= 0 {
		return true
	}
	return false
}

// distinct reports whether two integer terms are syntactically known distinct.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.sort {
	case SInt:
		ba, ka := c.splitOff(a)
		bb, kb := c.splitOff(b)
		if ba == bb && ka.Cmp(kb) != 0 {
			return true
		}
		if a.op == "ite" {
			return c.distinct(a.args[1], b) && c.distinct(a.args[2], b)
		}
		if b.op == "ite" {
			return c.distinct(a, b.args[1]) && c.distinct(a, b.args[2])
		}
		an, _, aok := c.allocOf(a)
		bn, _, bok := c.allocOf(b)
		if aok && bok {
			if an == bn {
				return true // offsets differ (else equal)
			}
			// allocations of distinct regions: ALLOC1 > every allocation from ALLOC0 region
			return true
		}
		if aok && isOldRef(b) || bok && isOldRef(a) {
			return true
		}
		// nested sub objects of distinct kinds
		if a.op == "app" && b.op == "app" && strings.HasPrefix(a.sval, "sub.") && strings.HasPrefix(b.sval, "sub.") {
			if a.sval != b.sval {
				return true
			}
			return c.distinct(a.args[0], b.args[0])
		}
		if a.op == "app" && strings.HasPrefix(a.sval, "sub.") && (bok || b.op == "int") {
			return true
		}
		if b.op == "app" && strings.HasPrefix(b.sval, "sub.") && (aok || a.op == "int") {
			return true
		}
	case SStr:
		if a.op == "str" && b.op == "str" {
			return true
		}
	case SBool:
		if a.isConst() && b.isConst() {
			return true
		}
	case SIface:
		if isCtor(a) && isCtor(b) {
			if a.op != b.op {
				return true
			}
			for i := range a.args {
				if c.distinct(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	return false
}

func isCtor(t *Term) bool {
	switch t.op {
	case "inil", "iref", "istr", "iint", "ibool", "iflt", "islice", "mkslice":
		return true
	}
	if t.op == "sym" && (t.sval == "inil") {
		return true
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts differ: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if c.distinct(a, b) {
		return c.F
	}
	// only the nil interface has no type
	if a.op == "tagof" && b.op == "int" && b.ival.Sign() == 0 {
		return c.Eq(a.args[0], c.INil())
	}
	if b.op == "tagof" && a.op == "int" && a.ival.Sign() == 0 {
		return c.Eq(b.args[0], c.INil())
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return c.F
		}
		var es []*Term
		for i := range a.args {
			es = append(es, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(es...)
	}
	if a.sort == SBool {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
	}
	if a.sort == SStr || isSeq(a.sort) {
		if r := c.eqConcat(a, b); r != nil {
			return r
		}
	}
	if a.sort == SInt {
		ba, ka := c.splitOff(a)
		bb, kb := c.splitOff(b)
		if ba == bb && ba != nil {
			return c.Bool(ka.Cmp(kb) == 0)
		}
		// normalise x+k1 = y+k2
		if ka.Sign() != 0 && kb.Sign() != 0 && ba != nil && bb != nil {
			d := new(big.Int).Sub(ka, kb)
			if d.Sign() >= 0 {
				a, b = c.Add(ba, c.BigInt(d)), bb
			} else {
				a, b = ba, c.Add(bb, c.BigInt(new(big.Int).Neg(d)))
			}
		} else if ba == nil && kb.Sign() != 0 {
			a, b = c.BigInt(new(big.Int).Sub(ka, kb)), bb
		} else if bb == nil && ka.Sign() != 0 {
			a, b = ba, c.BigInt(new(big.Int).Sub(kb, ka))
		}
	}
	if a.op == "ite" && b.isConst() || a.op == "ite" && isCtor(b) {
		x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
		if x.isConst() || y.isConst() {
			return c.Ite(a.args[0], x, y)
		}
	}
	if b.op == "ite" && (a.isConst() || isCtor(a)) {
		return c.Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.op("=", SBool, a, b)
}

func concatParts(t *Term) []*Term {
	if t.op == "str.++" || t.op == "seq.++" {
		return t.args
	}
	if t.op == "str" && t.sval == "" || t.op == "seq.empty" {
		return nil
	}
	return []*Term{t}
}

func isSeq(s Sort) bool { return strings.HasPrefix(string(s), "(Seq ") }
func seqElem(s Sort) Sort {
	return Sort(string(s)[5 : len(s)-1])
}
func SSeq(e Sort) Sort { return Sort("(Seq " + string(e) + ")") }

func (c *Ctx) SeqEmpty(e Sort) *Term { return c.op("seq.empty", SSeq(e)) }
func (c *Ctx) SeqUnit(x *Term) *Term { return c.op("seq.unit", SSeq(x.sort), x) }
func (c *Ctx) SeqLen(a *Term) *Term {
	switch a.op {
	case "seq.empty":
		return c.Int(0)
	case "seq.unit":
		return c.Int(1)
	case "seq.++":
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.SeqLen(x))
		}
		return c.Add(xs...)
	case "app":
		if a.sval == "SQ" {
			return a.args[2]
		}
	case "ite":
		return c.Ite(a.args[0], c.SeqLen(a.args[1]), c.SeqLen(a.args[2]))
	}
	return c.op("seq.len", SInt, a)
}
func (c *Ctx) SeqNth(a, i *Term) *Term {
	if a.op == "app" && a.sval == "SQ" {
		return c.Select(a.args[0], c.Add(a.args[1], i))
	}
	if a.op == "seq.unit" && i.op == "int" && i.ival.Sign() == 0 {
		return a.args[0]
	}
	if a.op == "seq.++" && i.op == "int" {
		k := i.ival.Int64()
		for _, p := range a.args {
			l := c.SeqLen(p)
			if l.op != "int" {
				break
			}
			if k < l.ival.Int64() {
				return c.SeqNth(p, c.Int(k))
			}
			k -= l.ival.Int64()
		}
	}
	return c.op("seq.nth", seqElem(a.sort), a, i)
}

// SQ is the mathematical sequence content[off .. off+n).
func (c *Ctx) SQ(content, off, n *Term) *Term {
	_, es := arrElem(content.sort)
	if n.op == "int" && n.ival.Sign() <= 0 {
		return c.SeqEmpty(es)
	}
	if content.op == "ite" && false {
		return c.Ite(content.args[0], c.SQ(content.args[1], off, n), c.SQ(content.args[2], off, n))
	}
	if n.op == "int" && n.ival.Int64() <= 64 {
		var ps []*Term
		for i := int64(0); i < n.ival.Int64(); i++ {
			ps = append(ps, c.SeqUnit(c.Select(content, c.Add(off, c.Int(i)))))
		}
		return c.Concat(ps...)
	}
	// drop stores outside the window; peel a store at the last position
	for content.op == "store" {
		idx := content.args[1]
		rel := c.Sub(idx, off)
		// rel >= n ?
		if c.leSyn(n, rel) {
			content = content.args[0]
			continue
		}
		break
	}
	if content.op == "store" {
		last := c.Sub(n, c.Int(1))
		if c.Sub(content.args[1], off) == last {
			return c.Concat(c.SQ(content, off, last), c.SeqUnit(content.args[2]))
		}
		if b, k := c.splitOff(n); b != nil && k.Sign() > 0 {
			return c.Concat(c.SQ(content, off, last), c.SeqUnit(c.Select(content, c.Add(off, last))))
		}
	}
	if content.op == "app" && content.sval == "catarr" && off.op == "int" && off.ival.Sign() == 0 && c.Sub(n, c.Add(content.args[2], content.args[5])) == c.Int(0) {
		a := content.args
		return c.Concat(c.SQ(a[0], a[1], a[2]), c.SQ(a[3], a[4], a[5]))
	}
	if content.op == "app" && content.sval == "seqarr" && off.op == "int" && off.ival.Sign() == 0 && n == c.SeqLen(content.args[0]) {
		return content.args[0]
	}
	return c.App("SQ", SSeq(es), content, off, n)
}

// Lines: the text of a sequence of lines, each ended by a newline.
func (c *Ctx) Lines(s *Term) *Term {
	if s.op == "ite" {
		return c.Ite(s.args[0], c.Lines(s.args[1]), c.Lines(s.args[2]))
	}
	if s == c.SeqEmpty(SStr) {
		return c.Str("")
	}
	switch s.op {
	case "seq.++":
		var ps []*Term
		for _, a := range s.args {
			ps = append(ps, c.Lines(a))
		}
		return c.Concat(ps...)
	case "seq.unit":
		return c.Concat(s.args[0], c.Str("\n"))
	}
	return c.App("Lines", SStr, s)
}

func (c *Ctx) leSyn(a, b *Term) bool { return c.Le(a, b) == c.T }

func (c *Ctx) eqConcat(a, b *Term) *Term {
	if a.op != "str.++" && b.op != "str.++" && a.op != "seq.++" && b.op != "seq.++" && !(isSeq(a.sort) && (a.op == "seq.unit" || a.op == "seq.empty") && (b.op == "seq.unit" || b.op == "seq.empty")) {
		return nil
	}
	var side []*Term
	es := SInt
	if isSeq(a.sort) {
		es = seqElem(a.sort)
	}
	pa := append([]*Term{}, concatParts(a)...)
	pb := append([]*Term{}, concatParts(b)...)
	changed := false
	// prefixes
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.op == "seq.unit" && y.op == "seq.unit" {
			e := c.Eq(x.args[0], y.args[0])
			if e == c.F {
				return c.F
			}
			side = append(side, e)
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.op == "str" && y.op == "str" {
			n := 0
			for n < len(x.sval) && n < len(y.sval) && x.sval[n] == y.sval[n] {
				n++
			}
			if n < len(x.sval) && n < len(y.sval) {
				return c.F
			}
			if n == 0 {
				break
			}
			changed = true
			if n == len(x.sval) {
				pa = pa[1:]
			} else {
				pa = append([]*Term{c.Str(x.sval[n:])}, pa[1:]...)
			}
			if n == len(y.sval) {
				pb = pb[1:]
			} else {
				pb = append([]*Term{c.Str(y.sval[n:])}, pb[1:]...)
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.op == "seq.unit" && y.op == "seq.unit" {
			e := c.Eq(x.args[0], y.args[0])
			if e == c.F {
				return c.F
			}
			side = append(side, e)
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.op == "str" && y.op == "str" {
			n := 0
			for n < len(x.sval) && n < len(y.sval) && x.sval[len(x.sval)-1-n] == y.sval[len(y.sval)-1-n] {
				n++
			}
			if n < len(x.sval) && n < len(y.sval) {
				return c.F
			}
			if n == 0 {
				break
			}
			changed = true
			if n == len(x.sval) {
				pa = pa[:len(pa)-1]
			} else {
				pa = append(append([]*Term{}, pa[:len(pa)-1]...), c.Str(x.sval[:len(x.sval)-n]))
			}
			if n == len(y.sval) {
				pb = pb[:len(pb)-1]
			} else {
				pb = append(append([]*Term{}, pb[:len(pb)-1]...), c.Str(y.sval[:len(y.sval)-n]))
			}
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return c.And(side...)
	}
	nonEmpty := func(ps []*Term) bool {
		for _, p := range ps {
			if p.op == "str" && p.sval != "" || p.op == "seq.unit" {
				return true
			}
		}
		return false
	}
	if len(pa) == 0 && nonEmpty(pb) || len(pb) == 0 && nonEmpty(pa) {
		return c.F
	}
	if !changed {
		return nil
	}
	if isSeq(a.sort) {
		cat := func(ps []*Term) *Term {
			if len(ps) == 0 {
				return c.SeqEmpty(es)
			}
			return c.Concat(ps...)
		}
		return c.And(append(side, c.Eq(cat(pa), cat(pb)))...)
	}
	return c.Eq(c.Concat(pa...), c.Concat(pb...))
}

func (c *Ctx) Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range concatParts(a) {
			if p.op == "str" && len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = c.Str(out[len(out)-1].sval + p.sval)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		if len(as) > 0 && isSeq(as[0].sort) {
			return as[0]
		}
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	if isSeq(out[0].sort) {
		return c.op("seq.++", out[0].sort, out...)
	}
	return c.op("str.++", SStr, out...)
}

func (c *Ctx) Add(as ...*Term) *Term {
	k := new(big.Int)
	var out []*Term
	cnt := map[*Term]int{}
	var ord []*Term
	var add func(a *Term, sign int)
	add = func(a *Term, sign int) {
		switch a.op {
		case "int":
			if sign > 0 {
				k.Add(k, a.ival)
			} else {
				k.Sub(k, a.ival)
			}
		case "+":
			for _, x := range a.args {
				add(x, sign)
			}
		case "neg":
			add(a.args[0], -sign)
		default:
			if _, ok := cnt[a]; !ok {
				ord = append(ord, a)
			}
			cnt[a] += sign
		}
	}
	for _, a := range as {
		add(a, 1)
	}
	sort.SliceStable(ord, func(i, j int) bool { return ord[i].id < ord[j].id })
	for _, a := range ord {
		n := cnt[a]
		for ; n > 0; n-- {
			out = append(out, a)
		}
		for ; n < 0; n++ {
			out = append(out, c.op("neg", SInt, a))
		}
	}
	if len(out) == 0 {
		return c.BigInt(k)
	}
	if k.Sign() != 0 {
		out = append(out, c.BigInt(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.op("+", SInt, out...)
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.op == "int" {
		return c.BigInt(new(big.Int).Neg(a.ival))
	}
	if a.op == "neg" {
		return a.args[0]
	}
	if a.op == "+" {
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.Neg(x))
		}
		return c.Add(xs...)
	}
	return c.op("neg", SInt, a)
}
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return c.BigInt(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.ival.Sign() == 0 {
			return b
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return c.op("*", SInt, a, b)
}
func (c *Ctx) Le(a, b *Term) *Term {
	ba, ka := c.splitOff(a)
	bb, kb := c.splitOff(b)
	if ba == bb {
		return c.Bool(ka.Cmp(kb) <= 0)
	}
	// str.len and friends are non negative
	if ba == nil && ka.Sign() <= 0 && bb != nil && kb.Sign() >= 0 && (bb.op == "str.len") {
		return c.T
	}
	if ba == nil && ka.Sign() <= 0 {
		if _, _, ok := c.allocOf(b); ok {
			return c.T
		}
	}
	return c.op("<=", SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }

func (c *Ctx) Len(a *Term) *Term {
	if a.op == "str" {
		return c.Int(int64(len(a.sval)))
	}
	if a.op == "str.++" {
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.Len(x))
		}
		return c.Add(xs...)
	}
	return c.op("str.len", SInt, a)
}

func (c *Ctx) PrefixOf(p, s *Term) *Term {
	pp, sp := concatParts(p), concatParts(s)
	if len(pp) == 0 {
		return c.T
	}
	for len(pp) > 0 && len(sp) > 0 {
		x, y := pp[0], sp[0]
		if x == y {
			pp, sp = pp[1:], sp[1:]
			continue
		}
		if x.op == "str" && y.op == "str" {
			n := 0
			for n < len(x.sval) && n < len(y.sval) && x.sval[n] == y.sval[n] {
				n++
			}
			if n == len(x.sval) {
				pp = pp[1:]
				sp = append([]*Term{c.Str(y.sval[n:])}, sp[1:]...)
				if n == len(y.sval) {
					sp = sp[1:]
				}
				continue
			}
			if n == len(y.sval) {
				if len(sp) == 1 {
					return c.F
				}
				break
			}
			return c.F
		}
		break
	}
	if len(pp) == 0 {
		return c.T
	}
	if len(sp) == 0 {
		// prefix remaining must be empty
		return c.Eq(c.Concat(pp...), c.Str(""))
	}
	return c.op("str.prefixof", SBool, c.Concat(pp...), c.Concat(sp...))
}
func (c *Ctx) SuffixOf(p, s *Term) *Term {
	pp, sp := append([]*Term{}, concatParts(p)...), append([]*Term{}, concatParts(s)...)
	for len(pp) > 0 && len(sp) > 0 {
		x, y := pp[len(pp)-1], sp[len(sp)-1]
		if x == y {
			pp, sp = pp[:len(pp)-1], sp[:len(sp)-1]
			continue
		}
		if x.op == "str" && y.op == "str" {
			n := 0
			for n < len(x.sval) && n < len(y.sval) && x.sval[len(x.sval)-1-n] == y.sval[len(y.sval)-1-n] {
				n++
			}
			if n == len(x.sval) {
				pp = pp[:len(pp)-1]
				sp = sp[:len(sp)-1]
				if n < len(y.sval) {
					sp = append(sp, c.Str(y.sval[:len(y.sval)-n]))
				}
				continue
			}
			if n == len(y.sval) {
				if len(sp) == 1 {
					return c.F
				}
				break
			}
			return c.F
		}
		break
	}
	if len(pp) == 0 {
		return c.T
	}
	if len(sp) == 0 {
		return c.Eq(c.Concat(pp...), c.Str(""))
	}
	return c.op("str.suffixof", SBool, c.Concat(pp...), c.Concat(sp...))
}

// TrimPrefix / TrimSuffix as in package strings.
func (c *Ctx) TrimPrefix(s, p *Term) *Term {
	cond := c.PrefixOf(p, s)
	if cond == c.F {
		return s
	}
	// syntactic removal
	if cond == c.T {
		if r := c.stripPrefix(s, p); r != nil {
			return r
		}
	}
	return c.App("trimpre", SStr, s, p)
}
func (c *Ctx) stripPrefix(s, p *Term) *Term {
	pp, sp := concatParts(p), concatParts(s)
	for len(pp) > 0 {
		if len(sp) == 0 {
			return nil
		}
		x, y := pp[0], sp[0]
		if x == y {
			pp, sp = pp[1:], sp[1:]
			continue
		}
		if x.op == "str" && y.op == "str" && strings.HasPrefix(y.sval, x.sval) {
			pp = pp[1:]
			sp = append([]*Term{c.Str(y.sval[len(x.sval):])}, sp[1:]...)
			continue
		}
		return nil
	}
	return c.Concat(sp...)
}
func (c *Ctx) TrimSuffix(s, p *Term) *Term {
	cond := c.SuffixOf(p, s)
	if cond == c.F {
		return s
	}
	if cond == c.T {
		pp, sp := append([]*Term{}, concatParts(p)...), append([]*Term{}, concatParts(s)...)
		ok := true
		for len(pp) > 0 {
			if len(sp) == 0 {
				ok = false
				break
			}
			x, y := pp[len(pp)-1], sp[len(sp)-1]
			if x == y {
				pp, sp = pp[:len(pp)-1], sp[:len(sp)-1]
				continue
			}
			if x.op == "str" && y.op == "str" && strings.HasSuffix(y.sval, x.sval) {
				pp = pp[:len(pp)-1]
				sp[len(sp)-1] = c.Str(strings.TrimSuffix(y.sval, x.sval))
				continue
			}
			ok = false
			break
		}
		if ok {
			return c.Concat(sp...)
		}
	}
	return c.App("trimsuf", SStr, s, p)
}

func (c *Ctx) Substr(s, off, n *Term) *Term {
	if s.op == "str" && off.op == "int" && n.op == "int" {
		o, l := off.ival.Int64(), n.ival.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.sval)) {
			return c.Str(s.sval[o : o+l])
		}
	}
	if off.op == "int" && off.ival.Sign() == 0 && n == c.Len(s) {
		return s
	}
	return c.op("str.substr", SStr, s, off, n)
}

// ---- arrays / heaps -------------------------------------------------------

func (c *Ctx) Store(h, k, v *Term) *Term {
	if h.op == "store" && h.args[1] == k {
		h = h.args[0]
	}
	if v.op == "select" && v.args[0] == h && v.args[1] == k {
		return h
	}
	return c.op("store", h.sort, h, k, v)
}

func (c *Ctx) Select(h, k *Term) *Term {
	_, es := arrElem(h.sort)
	for {
		switch h.op {
		case "store":
			if h.args[1] == k {
				return h.args[2]
			}
			if c.distinct(h.args[1], k) {
				h = h.args[0]
				continue
			}
		case "constarr":
			return h.args[0]
		case "hav":
			// (hav H B F): refs <= B read H
			if isOldRef(k) || c.knownLe(k, h.args[1]) {
				h = h.args[0]
				continue
			}
			if c.knownGt(k, h.args[1]) {
				h = h.args[2]
				continue
			}
			return c.Ite(c.Le(k, h.args[1]), c.Select(h.args[0], k), c.Select(h.args[2], k))
		case "ite":
			a, b := c.Select(h.args[1], k), c.Select(h.args[2], k)
			return c.Ite(h.args[0], a, b)
		}
		break
	}
	if h.op == "sym" && strings.HasPrefix(h.sval, "H") {
		// objects allocated after the heap's snapshot read as zero
		if an, _, ok := c.allocOf(k); ok && allocIdx(an) >= heapIdx(h.sval) {
			return c.Zero(es)
		}
	}
	t := c.op("select", es, h, k)
	if (h.old || h.op == "sym" && strings.HasPrefix(h.sval, "H0.")) && (k.sort != SInt || isOldRef(k) || h.sort != SArr(SInt, es) || h.op == "select") {
		t.old = true
	}
	return t
}

func heapIdx(s string) int {
	n := 0
	fmt.Sscanf(s, "H%d.", &n)
	return n
}

func (c *Ctx) Zero(s Sort) *Term {
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.F
	case SStr:
		return c.Str("")
	case SIface:
		return c.INil()
	case SSlice:
		return c.op("mkslice", SSlice, c.Int(0), c.Int(0), c.Int(0), c.Int(0))
	case SFlt:
		return c.Sym("flt0", SFlt)
	}
	if isSeq(s) {
		return c.SeqEmpty(seqElem(s))
	}
	_, es := arrElem(s)
	return c.op("constarr", s, c.Zero(es))
}

func (c *Ctx) knownLe(k, b *Term) bool {
	ba, ka := c.splitOff(k)
	bb, kb := c.splitOff(b)
	if ba == bb {
		return ka.Cmp(kb) <= 0
	}
	// allocation regions are ordered ALLOC0 < ALLOC1 < ...; allocations made
	// in region i are <= base of region j>i
	an, _, ok := c.allocOf(k)
	if ok && bb != nil && bb.op == "sym" && strings.HasPrefix(bb.sval, "ALLOC") {
		return allocIdx(an) < allocIdx(bb.sval)
	}
	return false
}
func (c *Ctx) knownGt(k, b *Term) bool {
	ba, ka := c.splitOff(k)
	bb, kb := c.splitOff(b)
	if ba == bb {
		return ka.Cmp(kb) > 0
	}
	an, _, ok := c.allocOf(k)
	if ok && bb != nil && bb.op == "sym" && strings.HasPrefix(bb.sval, "ALLOC") {
		return allocIdx(an) > allocIdx(bb.sval)
	}
	return false
}

func allocIdx(s string) int {
	n := 0
	fmt.Sscanf(strings.TrimPrefix(s, "ALLOC"), "%d", &n)
	return n
}

// ---- datatypes ------------------------------------------------------------

func (c *Ctx) INil() *Term { return c.op("inil", SIface) }
func (c *Ctx) IRef(tag, ref *Term) *Term {
	return c.op("iref", SIface, tag, ref)
}
func (c *Ctx) ctor(op string, s Sort, args ...*Term) *Term { return c.op(op, s, args...) }

var selIdx = map[string]struct {
	ctor string
	i    int
	s    Sort
}{
	"iref.tag": {"iref", 0, SInt}, "iref.ref": {"iref", 1, SInt},
	"istr.tag": {"istr", 0, SInt}, "istr.val": {"istr", 1, SStr},
	"iint.tag": {"iint", 0, SInt}, "iint.val": {"iint", 1, SInt},
	"ibool.tag": {"ibool", 0, SInt}, "ibool.val": {"ibool", 1, SBool},
	"iflt.tag": {"iflt", 0, SInt}, "iflt.val": {"iflt", 1, SFlt},
	"islice.tag": {"islice", 0, SInt}, "islice.val": {"islice", 1, SSlice},
	"sl.arr": {"mkslice", 0, SInt}, "sl.off": {"mkslice", 1, SInt}, "sl.len": {"mkslice", 2, SInt}, "sl.cap": {"mkslice", 3, SInt},
}

func (c *Ctx) Sel(name string, t *Term) *Term {
	si := selIdx[name]
	if t.op == si.ctor {
		return t.args[si.i]
	}
	if t.op == "ite" {
		return c.Ite(t.args[0], c.Sel(name, t.args[1]), c.Sel(name, t.args[2]))
	}
	r := c.op(name, si.s, t)
	if t.old {
		r.old = true
	}
	return r
}

func (c *Ctx) Is(ctor string, t *Term) *Term {
	if isCtor(t) {
		return c.Bool(t.op == ctor)
	}
	if t.op == "ite" {
		a, b := c.Is(ctor, t.args[1]), c.Is(ctor, t.args[2])
		return c.Ite(t.args[0], a, b)
	}
	return c.mk(&Term{op: "is", sort: SBool, sval: ctor, args: []*Term{t}})
}

// TagOf gives the dynamic type tag of an interface value (0 for nil).
func (c *Ctx) TagOf(t *Term) *Term {
	switch t.op {
	case "inil":
		return c.Int(0)
	case "iref", "istr", "iint", "ibool", "iflt", "islice":
		return t.args[0]
	case "ite":
		return c.Ite(t.args[0], c.TagOf(t.args[1]), c.TagOf(t.args[2]))
	}
	return c.op("tagof", SInt, t)
}

func (c *Ctx) Forall(bvs []*Term, body *Term, pats ...*Term) *Term {
	if body == c.T || body == c.F {
		return body
	}
	return c.mk(&Term{op: "forall", sort: SBool, args: []*Term{body}, bvars: bvs, pats: pats})
}

// ---- substitution ---------------------------------------------------------

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "+":
		return c.Add(args...)
	case "neg":
		return c.Neg(args[0])
	case "*":
		return c.Mul(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "str.++", "seq.++":
		return c.Concat(args...)
	case "seq.len":
		return c.SeqLen(args[0])
	case "seq.nth":
		return c.SeqNth(args[0], args[1])
	case "str.len":
		return c.Len(args[0])
	case "str.prefixof":
		return c.PrefixOf(args[0], args[1])
	case "str.suffixof":
		return c.SuffixOf(args[0], args[1])
	case "str.substr":
		return c.Substr(args[0], args[1], args[2])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "tagof":
		return c.TagOf(args[0])
	case "is":
		return c.Is(t.sval, args[0])
	case "forall":
		return c.mk(&Term{op: "forall", sort: SBool, args: args, bvars: t.bvars, pats: t.pats})
	case "app":
		if t.sval == "SQ" {
			return c.SQ(args[0], args[1], args[2])
		}
	}
	if _, ok := selIdx[t.op]; ok {
		return c.Sel(t.op, args[0])
	}
	return c.mk(&Term{op: t.op, sort: t.sort, sval: t.sval, ival: t.ival, args: args, old: t.old})
}

// ---- printing -------------------------------------------------------------

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch < 32 || ch > 126 || ch == '\\':
			fmt.Fprintf(&b, "\\u{%x}", ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func quoteSym(s string) string { return "|" + s + "|" }

func (t *Term) head() string {
	switch t.op {
	case "app":
		return quoteSym(t.sval)
	case "is":
		return "(_ is " + t.sval + ")"
	case "neg":
		return "-"
	case "constarr":
		return "(as const " + string(t.sort) + ")"
	}
	return t.op
}

func (t *Term) leaf() (string, bool) {
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")", true
		}
		return t.ival.String(), true
	case "str":
		return smtStr(t.sval), true
	case "true", "false":
		return t.op, true
	case "sym", "bv":
		return quoteSym(t.sval), true
	case "inil":
		return "inil", true
	}
	if t.op == "seq.empty" {
		return "(as seq.empty " + string(t.sort) + ")", true
	}
	return "", false
}

// String renders without sharing (for diagnostics), truncated in depth.
func (t *Term) String() string { return t.render(12) }

func (t *Term) render(d int) string {
	if s, ok := t.leaf(); ok {
		return s
	}
	if d == 0 {
		return "..."
	}
	if t.op == "forall" {
		var bs []string
		for _, b := range t.bvars {
			bs = append(bs, "("+quoteSym(b.sval)+" "+string(b.sort)+")")
		}
		return "(forall (" + strings.Join(bs, " ") + ") " + t.args[0].render(d-1) + ")"
	}
	var b strings.Builder
	b.WriteString("(" + t.head())
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(a.render(d - 1))
	}
	b.WriteByte(')')
	return b.String()
}
