package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- SMT-LIB emission ------------------------------------------------------

const smtPrelude = `(declare-datatypes ((Slice 0)) (((mkslice (sl.arr Int) (sl.off Int) (sl.len Int) (sl.cap Int)))))
(declare-sort Flt 0)
(declare-datatypes ((Iface 0)) (((inil) (iref (iref.tag Int) (iref.ref Int)) (istr (istr.tag Int) (istr.val String)) (iint (iint.tag Int) (iint.val Int)) (ibool (ibool.tag Int) (ibool.val Bool)) (iflt (iflt.tag Int) (iflt.val Flt)) (islice (islice.tag Int) (islice.val Slice)))))
(define-fun tagof ((x Iface)) Int (ite ((_ is inil) x) 0 (ite ((_ is iref) x) (iref.tag x) (ite ((_ is istr) x) (istr.tag x) (ite ((_ is iint) x) (iint.tag x) (ite ((_ is ibool) x) (ibool.tag x) (ite ((_ is iflt) x) (iflt.tag x) (islice.tag x))))))))
`

type emitter struct {
	b     strings.Builder
	decl  map[string]bool
	names map[*Term]string
	uses  map[*Term]int
	seen  map[*Term]bool
	extra []string
	n     int
}

var polyFuns = map[string]bool{"SQ": true, "catarr": true, "seqarr": true, "bytesarr": false}

func sortSuffix(s Sort) string {
	r := strings.NewReplacer("(", "", ")", "", " ", ".")
	return r.Replace(string(s))
}

func appName(t *Term) string {
	if polyFuns[t.sval] {
		return t.sval + "@" + sortSuffix(t.args[0].sort)
	}
	return t.sval
}

func (e *emitter) count(t *Term) {
	e.uses[t]++
	if e.seen[t] {
		return
	}
	e.seen[t] = true
	for _, a := range t.args {
		e.count(a)
	}
	for _, p := range t.pats {
		e.count(p)
	}
	switch t.op {
	case "sym":
		k := "s:" + t.sval
		if !e.decl[k] {
			e.decl[k] = true
			fmt.Fprintf(&e.b, "(declare-const %s %s)\n", quoteSym(t.sval), t.sort)
		}
	case "app":
		n := appName(t)
		k := "f:" + n
		if !e.decl[k] {
			e.decl[k] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, string(a.sort))
			}
			fmt.Fprintf(&e.b, "(declare-fun %s (%s) %s)\n", quoteSym(n), strings.Join(ss, " "), t.sort)
		}
	}
}

func (e *emitter) str(t *Term) string {
	if s, ok := t.leaf(); ok {
		return s
	}
	if n, ok := e.names[t]; ok {
		return n
	}
	s := e.body(t)
	if e.uses[t] > 1 && !t.bound && len(s) > 20 {
		e.n++
		n := fmt.Sprintf("t!%d", e.n)
		fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, t.sort, s)
		e.names[t] = n
		return n
	}
	if !t.bound {
		e.names[t] = s
	}
	return s
}

func (e *emitter) body(t *Term) string {
	switch t.op {
	case "forall":
		var bs []string
		for _, b := range t.bvars {
			bs = append(bs, "("+quoteSym(b.sval)+" "+string(b.sort)+")")
		}
		body := e.str(t.args[0])
		if len(t.pats) > 0 {
			var ps []string
			for _, p := range t.pats {
				ps = append(ps, e.str(p))
			}
			body = "(! " + body + " :pattern (" + strings.Join(ps, " ") + "))"
		}
		return "(forall (" + strings.Join(bs, " ") + ") " + body + ")"
	case "hav":
		e.n++
		n := fmt.Sprintf("hav!%d", e.n)
		h, b, f := e.str(t.args[0]), e.str(t.args[1]), e.str(t.args[2])
		fmt.Fprintf(&e.b, "(declare-const %s %s)\n", n, t.sort)
		e.extra = append(e.extra, fmt.Sprintf("(assert (forall ((r Int)) (! (= (select %s r) (ite (<= r %s) (select %s r) (select %s r))) :pattern ((select %s r)))))", n, b, h, f, n))
		fmt.Fprintf(&e.b, "(assert (forall ((r Int)) (! (= (select %s r) (ite (<= r %s) (select %s r) (select %s r))) :pattern ((select %s r)))))\n", n, b, h, f, n)
		e.names[t] = n
		return n
	case "app":
		var b strings.Builder
		b.WriteString("(" + quoteSym(appName(t)))
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(e.str(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	var b strings.Builder
	b.WriteString("(" + t.head())
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(e.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

// emitQuery renders: assumptions and not goal.
func emitQuery(as []*Term, goal *Term) string {
	e := &emitter{decl: map[string]bool{}, names: map[*Term]string{}, uses: map[*Term]int{}, seen: map[*Term]bool{}}
	for _, a := range as {
		e.count(a)
	}
	e.count(goal)
	var tail strings.Builder
	for _, a := range as {
		s := e.str(a)
		e.b.WriteString("(assert " + s + ")\n")
	}
	s := e.str(goal)
	e.b.WriteString("(assert (not " + s + "))\n")
	return smtPrelude + e.b.String() + tail.String()
}

// ---- solver processes ------------------------------------------------------

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Solver struct {
	p *proc
}

var (
	statQueries  int64
	statTimeNs   int64
	statCache    int64
	statFallback int64
	backendUsed  sync.Map
)

func backend(n string) *int64 {
	v, _ := backendUsed.LoadOrStore(n, new(int64))
	return v.(*int64)
}

var z3bin = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func startZ3() (*proc, error) {
	cmd := exec.Command(z3bin, "-in", "-smt2", "-memory:3000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.in.Close()
		s.p.cmd.Process.Kill()
		s.p.cmd.Wait()
		s.p = nil
	}
}

type Result struct {
	Status  string // unsat | sat | unknown
	Model   string
	Backend string
	Query   string
	Ms      int64
}

var qcache sync.Map

// hurry shortens every query: the verdict is known, or time is running out.
var hurry atomic.Bool

// rawZ3 runs one query on the persistent z3.
func (s *Solver) rawZ3(q string, timeoutMs int, model bool) (string, string) {
	if s.p == nil {
		p, err := startZ3()
		if err != nil {
			return "unknown", ""
		}
		s.p = p
	}
	var b strings.Builder
	b.WriteString("(reset)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeoutMs)
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	b.WriteString(q)
	b.WriteString("(check-sat)\n(echo \"--done--\")\n")
	if os.Getenv("GOV_DUMP") != "" {
		h := sha256.Sum256([]byte(q))
		os.WriteFile(fmt.Sprintf("%s/q%x.smt2", os.Getenv("GOV_DUMP"), h[:4]), []byte(q+"(check-sat)\n"), 0644)
	}
	done := make(chan struct{})
	var lines []string
	p := s.p
	read := func() {
		for {
			l, err := p.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err != nil {
				break
			}
			if l == "--done--" {
				break
			}
			lines = append(lines, l)
		}
		close(done)
	}
	go read()
	// z3 may stop reading while it is busy: never wait for it here
	go io.WriteString(p.in, b.String())
	select {
	case <-done:
	case <-time.After(time.Duration(timeoutMs+1500) * time.Millisecond):
		s.Close()
		return "unknown", "timeout"
	}
	st := "unknown"
	msg := ""
	for _, l := range lines {
		switch l {
		case "sat", "unsat", "unknown":
			st = l
		default:
			if strings.Contains(l, "error") {
				msg = l
			}
		}
	}
	if msg != "" {
		if os.Getenv("GOV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "z3:", msg)
			os.WriteFile("/tmp/gov_bad.smt2", []byte(q), 0644)
		}
		return "unknown", msg
	}
	if st == "sat" && model {
		done2 := make(chan struct{})
		var ml []string
		go func() {
			for {
				l, err := p.out.ReadString('\n')
				if err != nil || strings.TrimSpace(l) == "--done--" {
					break
				}
				ml = append(ml, l)
			}
			close(done2)
		}()
		io.WriteString(s.p.in, "(get-model)\n(echo \"--done--\")\n")
		select {
		case <-done2:
		case <-time.After(5 * time.Second):
			s.Close()
		}
		return st, strings.Join(ml, "")
	}
	return st, ""
}

func oneShot(ctx context.Context, bin string, args []string, file string) string {
	cmd := exec.CommandContext(ctx, bin, append(args, file)...)
	o, _ := cmd.Output()
	for _, l := range strings.Split(string(o), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			return l
		}
	}
	return "unknown"
}

// race asks several solvers at once: the first proof wins.
func race(q string, timeoutMs int, all bool) Result {
	r := Result{Status: "unknown", Backend: "z3-new"}
	f, err := os.CreateTemp("", "govq*.smt2")
	if err != nil {
		return r
	}
	defer os.Remove(f.Name())
	f.WriteString("(set-logic ALL)\n" + q + "(check-sat)\n")
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(timeoutMs)*time.Millisecond)
	defer cancel()
	n := 2
	ch := make(chan Result, 3)
	go func() {
		ch <- Result{Status: oneShot(ctx, "z3", []string{"-smt2", "-memory:3000"}, f.Name()), Backend: "z3-4.8"}
	}()
	go func() {
		ch <- Result{Status: oneShot(ctx, "z3-new", []string{"-smt2", "-memory:3000"}, f.Name()), Backend: "z3-new"}
	}()
	if all {
		n++
		go func() {
			ch <- Result{Status: oneShot(ctx, "cvc5", []string{"--strings-exp"}, f.Name()), Backend: "cvc5"}
		}()
	}
	for i := 0; i < n; i++ {
		x := <-ch
		if x.Status == "unsat" {
			return x
		}
		if x.Status == "sat" && r.Status == "unknown" {
			r = x
		}
	}
	return r
}

var reSeqNth = regexp.MustCompile(`seq\.nth`)

// Prove decides as |= goal. quick: only z3 with a short timeout.
func (s *Solver) Prove(as []*Term, goal *Term, timeoutMs int, fallback, model bool) Result {
	if goal.op == "true" {
		return Result{Status: "unsat", Backend: "simplifier"}
	}
	for _, a := range as {
		if a.op == "false" {
			return Result{Status: "unsat", Backend: "simplifier"}
		}
		if a == goal {
			return Result{Status: "unsat", Backend: "simplifier"}
		}
	}
	q := emitQuery(as, goal)
	key := sha256.Sum256([]byte(fmt.Sprint(fallback, model) + q))
	if r, ok := qcache.Load(key); ok {
		atomic.AddInt64(&statCache, 1)
		return r.(Result)
	}
	if hurry.Load() && timeoutMs > 500 {
		timeoutMs, fallback = 500, false
	}
	t0 := time.Now()
	first := timeoutMs
	if !model && first > 600 {
		first = 600
	}
	st, m := s.rawZ3(q, first, model)
	r := Result{Status: st, Model: m, Backend: "z3-new"}
	if st == "unknown" && (fallback || timeoutMs > first) {
		atomic.AddInt64(&statFallback, 1)
		n := timeoutMs
		if fallback {
			n = timeoutMs * 3 / 2
		}
		x := race(q, n, fallback)
		if x.Status != "unknown" {
			if r.Model != "" {
				x.Model = "; z3-new: " + r.Model
			}
			r = x
		}
	}
	r.Ms = time.Since(t0).Milliseconds()
	if os.Getenv("GOV_SLOW") != "" && r.Ms > 250 {
		fmt.Fprintf(os.Stderr, "slow %s %dms limit %d fallback %v: %s\n", r.Status, r.Ms, timeoutMs, fallback, cut(goal.render(10), 200))
	}
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statTimeNs, int64(time.Since(t0)))
	if r.Status == "unsat" {
		atomic.AddInt64(backend(r.Backend), 1)
	}
	qcache.Store(key, r)
	return r
}

// modelValues harvests string and integer constants from a model for replay.
func modelValues(m string) (strs []string, ints []string) {
	ss := map[string]bool{}
	for _, x := range regexp.MustCompile(`"((?:[^"]|"")*)"`).FindAllStringSubmatch(m, -1) {
		v := strings.ReplaceAll(x[1], `""`, `"`)
		v = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}`).ReplaceAllStringFunc(v, func(h string) string {
			var n int
			fmt.Sscanf(h, `\u{%x}`, &n)
			if n < 256 {
				return string([]byte{byte(n)})
			}
			return string(rune(n))
		})
		if len(v) < 200 {
			ss[v] = true
		}
	}
	is := map[string]bool{}
	for _, x := range regexp.MustCompile(`[ (](\d+)\)`).FindAllStringSubmatch(m, -1) {
		is[x[1]] = true
	}
	for _, x := range regexp.MustCompile(`\(- (\d+)\)`).FindAllStringSubmatch(m, -1) {
		is["-"+x[1]] = true
	}
	for k := range ss {
		strs = append(strs, k)
	}
	for k := range is {
		ints = append(ints, k)
	}
	sort.Strings(strs)
	sort.Strings(ints)
	return
}
