package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

const goRoot = "/opt/veriftools/go1.23.12"

func setGoEnv() {
	os.Setenv("GOROOT", goRoot)
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	for _, kv := range []string{"GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off"} {
		i := strings.IndexByte(kv, '=')
		os.Setenv(kv[:i], kv[i+1:])
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
}

// Baseline is what the unchanged tree looks like to the verifier: used only
// to tell a proof that fails for want of a model of a new dependency from a
// proof that fails because the code changed its meaning.
type Baseline struct {
	Contracts map[string]*BaseCt `json:"contracts"`
}

type BaseCt struct {
	Opaque  []string `json:"opaque"`
	Inlined []string `json:"inlined"`
}

func loadBaseline() *Baseline {
	b := &Baseline{Contracts: map[string]*BaseCt{}}
	if t, err := os.ReadFile(filepath.Join(verifDir, "baseline.json")); err == nil {
		json.Unmarshal(t, b)
	}
	return b
}

type Known struct {
	fixed    bool
	prop     string
	contract string
	clause   string
	what     string
	input    string // a concrete input the harness knows by this name
}

// known_findings.txt: "finding: property=C10 contract=<target> clause=<name> :: <what fails>"
// or "finding: property=C12 input=<name> :: <what fails>"
func loadKnown() []Known {
	var out []Known
	t, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) contract=(.*?) clause=(.*?) :: (.*)$`)
	ri := regexp.MustCompile(`^finding: property=(\S+) input=(\S+) :: (.*)$`)
	for _, l := range strings.Split(string(t), "\n") {
		if m := ri.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, Known{prop: m[1], input: m[2], what: m[3]})
		}
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, Known{prop: m[1], contract: m[2], clause: m[3], what: m[4]})
		}
	}
	return out
}

type fnEvidence struct {
	Function    string   `json:"function"`
	Contract    string   `json:"contract"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Paths       int      `json:"paths"`
	SolverMs    int64    `json:"solver_ms"`
	WallMs      int64    `json:"wall_ms"`
	Role        string   `json:"role"`
	Problem     string   `json:"problem,omitempty"`
	Inlined     []string `json:"inlined_callees,omitempty"`
	Uses        []string `json:"callee_contracts_used,omitempty"`
}

type checkRun struct {
	e          *Engine
	prop       string
	tier       string
	seed       int
	t0         time.Time
	base       *Baseline
	known      []Known
	knownHit   map[int]bool
	reps       map[*Contract]*FnReport
	violations []string
	bounded    []map[string]any
	replay     replayResult
	notes      []string
}

func (r *checkRun) outDir() string {
	d := filepath.Join(verifDir, "out", r.prop)
	os.MkdirAll(d, 0o755)
	return d
}

func (r *checkRun) tagged(ct *Contract) bool { return has(ct.props, r.prop) }

func relevant(o *Obligation, prop string) bool {
	return len(o.Props) == 0 || has(o.Props, prop)
}

// failing lists the relevant obligations that were not discharged and are not
// known findings.
func (r *checkRun) failing(ct *Contract, rep *FnReport) []*Obligation {
	var out []*Obligation
	for _, o := range rep.Obls {
		if o.Status == "discharged" || r.tagged(ct) && !relevant(o, r.prop) {
			continue
		}
		hit := false
		for i, k := range r.known {
			if k.input == "" && k.contract == ct.target && k.clause == o.Name {
				if k.prop == r.prop {
					r.knownHit[i] = true
				}
				hit = true
			}
		}
		if !hit {
			out = append(out, o)
		}
	}
	return out
}

func runCheck(prop string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	r := &checkRun{prop: prop, tier: tier, seed: seed, t0: time.Now(), base: loadBaseline(), known: loadKnown(), knownHit: map[int]bool{}, reps: map[*Contract]*FnReport{}}
	defer dropCorpus()
	ov, pats, err := loadSet(usesCorpus[prop])
	if err != nil {
		fmt.Println("check error:", err)
		return 2
	}
	if theCorpus != nil && theCorpus.failure != "" {
		f := filepath.Join(r.outDir(), "generator.txt")
		os.WriteFile(f, []byte("generating code for the services of "+verifDir+"/corpus with the current tree's generator:\n"+theCorpus.failure+"\n"), 0o644)
		r.report(f, "")
		fmt.Println("  ", cut(theCorpus.failure, 600))
	}
	replayDone := make(chan replayResult, 1)
	go func() {
		rr := runReplay(prop, tier, seed, r.outDir(), nil, true)
		if rr.failed {
			hurry.Store(true)
		}
		replayDone <- rr
	}()
	limit := 480 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	time.AfterFunc(limit, func() { hurry.Store(true) })
	e, err := Load(LoadOpts{Dir: repoDir, Patterns: pats, Overlay: ov})
	if err != nil {
		fmt.Println("check error:", err)
		return 2
	}
	r.e = e
	e.loadHints(hintFile())
	var tagged []*Contract
	for _, ct := range e.ctList {
		if r.tagged(ct) && !ct.trusted {
			tagged = append(tagged, ct)
		}
	}
	budget := int64(300000)
	if tier == "thorough" {
		budget = 1200000
	}
	byTarget := map[string]*Contract{}
	for _, ct := range e.ctList {
		byTarget[ct.target] = ct
	}
	// verify the tagged contracts and every contract they rely on
	todo := tagged
	for rounds := 0; len(todo) > 0 && rounds < 6; rounds++ {
		for i, rep := range e.verifyAll(todo, 0, budget) {
			r.reps[todo[i]] = rep
		}
		var next []*Contract
		redo := map[*Contract]bool{}
		for _, ct := range todo {
			rep := r.reps[ct]
			for _, u := range rep.UsedCts {
				if d := byTarget[u]; d != nil && !d.trusted && r.reps[d] == nil && !contains(next, d) {
					next = append(next, d)
				}
			}
		}
		// a dependency that does not hold, and belongs to another property,
		// is not assumed: callers see its body instead
		for ct, rep := range r.reps {
			if r.tagged(ct) || ct.inline {
				continue
			}
			if len(r.failing(ct, rep)) > 0 || rep.Problem != "" {
				ct.inline = true
				r.notes = append(r.notes, "contract of "+ct.target+" does not verify on this tree: callers were verified against its body")
				for d, dr := range r.reps {
					if d != ct && has(dr.UsedCts, ct.target) {
						redo[d] = true
					}
				}
			}
		}
		for d := range redo {
			if !contains(next, d) {
				next = append(next, d)
			}
		}
		todo = next
	}
	for ct := range r.reps {
		if ct.inline && !r.tagged(ct) {
			delete(r.reps, ct)
		}
	}
	r.replay = <-replayDone
	// decide
	var bad []*Contract
	for _, ct := range r.sorted() {
		rep := r.reps[ct]
		if len(r.failing(ct, rep)) > 0 || rep.Problem != "" {
			bad = append(bad, ct)
		}
	}
	if len(bad) > 0 && !r.replay.failed {
		// replay the counterexamples' values against the real code
		vals := cexValues(bad, r)
		rr := runReplay(prop, "thorough", seed, r.outDir(), vals, false)
		if rr.failed {
			r.replay = rr
		} else {
			r.replay.executions += rr.executions
		}
	}
	if r.replay.failed {
		r.report(r.replay.file, "")
		for _, l := range r.replay.summary {
			fmt.Println("  ", l)
		}
		for _, ct := range bad {
			for _, o := range dedupObls(r.failing(ct, r.reps[ct])) {
				fmt.Printf("   failed obligation: %s: %s: %s\n", ct.target, o.Kind, o.Name)
			}
		}
	} else {
		for _, ct := range bad {
			r.decideFailed(ct, budget)
		}
	}
	for _, d := range e.dropped {
		r.notes = append(r.notes, "contract not applicable to this tree: "+d)
	}
	sort.Strings(r.notes)
	for _, l := range r.replay.known {
		key, _, _ := strings.Cut(l, " ")
		for i, k := range r.known {
			if k.prop == prop && k.input == key {
				r.knownHit[i] = true
			}
		}
	}
	for i, k := range r.known {
		if r.knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		}
	}
	r.evidence(tagged)
	nObl, nDis, fns := r.counts()
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d bounded stand-ins, %d concrete replays, %.1fs\n",
		prop, fns, nObl, nDis, len(r.bounded), r.replay.executions, time.Since(r.t0).Seconds())
	for _, n := range r.notes {
		fmt.Println("note:", n)
	}
	for _, n := range r.replay.notRun {
		fmt.Println("replay not run:", n)
	}
	for _, b := range r.bounded {
		fmt.Printf("bounded stand-in: %v: %v\n", b["function"], b["reason"])
	}
	if len(r.violations) > 0 {
		return 1
	}
	return 0
}

func contains(xs []*Contract, x *Contract) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func dedupObls(os []*Obligation) []*Obligation {
	seen := map[string]bool{}
	var out []*Obligation
	for _, o := range os {
		k := o.Kind + o.Name
		if !seen[k] {
			seen[k] = true
			out = append(out, o)
		}
	}
	return out
}

func (r *checkRun) sorted() []*Contract {
	var out []*Contract
	for ct := range r.reps {
		out = append(out, ct)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].target < out[j].target })
	return out
}

func (r *checkRun) report(path, suffix string) {
	l := fmt.Sprintf("VIOLATION property=%s replay=%s", r.prop, path)
	if suffix != "" {
		l += " " + suffix
	}
	fmt.Println(l)
	r.violations = append(r.violations, l)
}

// newOpaque: calls of functions the verifier has no model of, which the
// unchanged code does not make.
func (r *checkRun) newOpaque(ct *Contract, rep *FnReport) []string {
	b := r.base.Contracts[ct.target]
	var out []string
	for _, o := range rep.Opaque {
		if b == nil || !has(b.Opaque, o) {
			out = append(out, o)
		}
	}
	return out
}

// decideFailed: an obligation of ct fails and no concrete input was found.
func (r *checkRun) decideFailed(ct *Contract, budget int64) {
	rep := r.reps[ct]
	fail := r.failing(ct, rep)
	add := func(reason string, extra map[string]any) {
		m := map[string]any{"function": ct.target, "reason": reason}
		for k, v := range extra {
			m[k] = v
		}
		r.bounded = append(r.bounded, m)
	}
	if rep.Problem != "" {
		add("the code left the verifier's reach: "+rep.Problem, nil)
		return
	}
	if no := r.newOpaque(ct, rep); len(no) > 0 {
		add("calls functions without a model: "+strings.Join(no, ", "), map[string]any{"obligations": names(fail)})
		return
	}
	// the failed clauses again, with loops unrolled and callees' bodies
	// instead of invariants and contracts
	b := r.e.verify(ct, 4, budget, true)
	bf := r.failing(ct, b)
	if b.Problem == "" {
		want := map[string]bool{}
		for _, o := range fail {
			if o.Kind != "precondition" && !strings.HasPrefix(o.Kind, "invariant") && o.Kind != "loop" {
				want[o.Name] = true
			}
		}
		var still []*Obligation
		for _, o := range bf {
			if o.Kind == "postcondition" || o.Kind == "on panic" || want[o.Name] || o.Kind == "nopanic" {
				still = append(still, o)
			}
		}
		if len(still) == 0 {
			add("the loop invariants or callee contracts no longer fit the code; holds with loops unrolled 4 times and callees inlined", map[string]any{"bound": "4 iterations per loop", "obligations": len(b.Obls)})
			return
		}
		if no := r.newOpaque(ct, b); len(no) > 0 {
			all := true
			for _, o := range no {
				// opaque calls inside callees whose contract is used otherwise
				_ = o
			}
			if !all {
				add("calls functions without a model: "+strings.Join(no, ", "), nil)
				return
			}
		}
		fail = still
	}
	if hurry.Load() && !r.replay.failed {
		ref := false
		for _, o := range fail {
			if o.Status == "refuted" {
				ref = true
			}
		}
		if !ref {
			add("the solvers ran out of time before deciding", map[string]any{"obligations": names(fail)})
			return
		}
	}
	f := filepath.Join(r.outDir(), "obligation-"+sanitize(ct.target)+".txt")
	var w bytes.Buffer
	fmt.Fprintf(&w, "property %s\nfunction under contract: %s\n", r.prop, ct.target)
	for _, o := range dedupObls(fail) {
		fmt.Fprintf(&w, "\nFAILED OBLIGATION %s: %s\nstatus: %s (%s, %d ms)\npath: %s\ngoal: %s\n", o.Kind, o.Name, o.Status, o.Backend, o.Ms, o.Path, o.Detail)
		if o.Model != "" {
			fmt.Fprintf(&w, "solver output:\n%s\n", o.Model)
		}
	}
	os.WriteFile(f, w.Bytes(), 0o644)
	r.report(f, "no-failing-input-found")
	for _, o := range dedupObls(fail) {
		fmt.Printf("   failed obligation: %s: %s: %s (%s)\n", ct.target, o.Kind, o.Name, o.Status)
	}
}

func names(os []*Obligation) []string {
	var out []string
	for _, o := range dedupObls(os) {
		out = append(out, o.Kind+": "+o.Name)
	}
	return out
}

func (r *checkRun) counts() (obl, dis, fns int) {
	for ct, rep := range r.reps {
		fns++
		for _, o := range rep.Obls {
			if r.tagged(ct) && !relevant(o, r.prop) {
				continue
			}
			obl++
			if o.Status == "discharged" {
				dis++
			}
		}
	}
	return
}

func (r *checkRun) evidence(tagged []*Contract) {
	obl, dis, _ := r.counts()
	var fns []fnEvidence
	trusted := map[string]bool{}
	assume := map[string]bool{}
	backends := map[string]int{}
	kinds := map[string]int{}
	var solver int64
	var samples []string
	for _, ct := range r.sorted() {
		rep := r.reps[ct]
		fe := fnEvidence{Function: rep.Fn, Contract: ct.target, Paths: rep.Paths, WallMs: rep.Ms, Problem: rep.Problem, Inlined: rep.Inlined, Uses: rep.UsedCts, Role: "callee contract used by this property"}
		if r.tagged(ct) {
			fe.Role = "states the property"
		}
		for _, o := range rep.Obls {
			if r.tagged(ct) && !relevant(o, r.prop) {
				continue
			}
			fe.Obligations++
			kinds[o.Kind]++
			if o.Status == "discharged" {
				fe.Discharged++
				backends[o.Backend]++
			}
			fe.SolverMs += o.Ms
			solver += o.Ms
			if r.tagged(ct) && o.Kind == "postcondition" {
				s := ct.target + ": " + o.Name
				if !has(samples, s) {
					samples = append(samples, s)
				}
			}
		}
		fns = append(fns, fe)
		for _, a := range rep.Assumed {
			trusted["library model: "+a] = true
		}
		for _, a := range rep.Opaque {
			trusted["unmodelled call: "+a] = true
		}
		for _, u := range rep.UsedCts {
			for _, d := range r.e.ctList {
				if d.target == u && d.trusted {
					assume["assumed contract (not verified): "+u] = true
				}
			}
		}
	}
	for _, n := range r.notes {
		assume[n] = true
	}
	for _, a := range commonAssumptions {
		assume[a] = true
	}
	cov := map[string]any{
		"obligations": obl, "discharged": dis,
		"checker_cmd":              "cd /verif && bash check.sh " + r.prop,
		"trusted_base":             append([]string{"gov (this verifier: Go SSA by golang.org/x/tools/go/ssa, symbolic execution, VC generation)", "z3 4.15 / cvc5 1.1.2 / z3 4.8.12 (any one accepting an obligation discharges it)"}, sortedKeys(trusted)...),
		"functions_under_contract": fns,
		"discharged_by_back_end":   backends,
		"obligation_kinds":         kinds,
		"solver_ms":                solver,
		"property_clauses":         samples,
		"bounded_stand_ins":        r.bounded,
		"concrete_replay":          map[string]any{"executions": r.replay.executions, "tests": r.replay.tests, "label": "bounded, not counted as proved", "not_run": r.replay.notRun},
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": levelOf(r.prop, obl),
		"coverage": cov, "assumptions": sortedKeys(assume), "wall_s": time.Since(r.t0).Seconds(), "violations": len(r.violations),
	}
	if obl == 0 {
		ev["level"] = "other"
		cov["explanation"] = "no contract of this property applies to this tree: only the bounded concrete replay was run"
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
}

func levelOf(prop string, obl int) string { return "proof" }

var commonAssumptions = []string{
	"int arithmetic on lengths and counters is mathematical (no overflow below 2^63)",
	"allocation never fails; goroutine interleavings with other writers of the same objects are not considered",
	"a non-nil error interface does not hold a nil *Error",
	"termination is not proved (partial correctness)",
}

// cexValues collects the literals of the counterexample models.
func cexValues(bad []*Contract, r *checkRun) []string {
	seen := map[string]bool{}
	var out []string
	re := regexp.MustCompile(`"((?:[^"\\]|"")*)"|(-?\b[0-9]+\b)`)
	for _, ct := range bad {
		for _, o := range r.failing(ct, r.reps[ct]) {
			for _, m := range re.FindAllString(o.Model+" "+o.Detail, 400) {
				v := strings.Trim(m, `"`)
				if !seen[v] && len(v) < 200 {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	if len(out) > 500 {
		out = out[:500]
	}
	return out
}

// ---- concrete replay ---------------------------------------------------------

type replayResult struct {
	failed     bool
	file       string
	executions int
	tests      []string
	known      []string
	prop       string
	unlisted   bool // a failure the harness knows by name but known_findings.txt does not list
	summary    []string
	notRun     []string
}

// runReplay runs the property's concrete harness (Go tests of /verif/replay,
// laid over the module's packages) against the real code.
func runReplay(prop, tier string, seed int, outDir string, vals []string, first bool) replayResult {
	res := replayResult{prop: prop}
	base := filepath.Join(verifDir, "replay")
	byPkg := map[string][]string{}
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, "_test.go") {
			rel, _ := filepath.Rel(base, filepath.Dir(p))
			byPkg[rel] = append(byPkg[rel], p)
		}
		return nil
	})
	tmp, err := os.MkdirTemp("", "govreplay")
	if err != nil {
		res.notRun = append(res.notRun, err.Error())
		return res
	}
	defer os.RemoveAll(tmp)
	vf := filepath.Join(tmp, "values.json")
	vb, _ := json.Marshal(vals)
	os.WriteFile(vf, vb, 0o644)
	var pkgs []string
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, pkg := range pkgs {
		files := byPkg[pkg]
		found := false
		for _, f := range files {
			b, _ := os.ReadFile(f)
			if bytes.Contains(b, []byte("func TestVerif"+prop+"_")) {
				found = true
			}
		}
		if !found {
			continue
		}
		dir := filepath.Join(repoDir, pkg)
		if pkg == "root" {
			dir = repoDir
		}
		skip := map[string]bool{}
		for try := 0; try < 4; try++ {
			rep := map[string]string{}
			for _, f := range files {
				if !skip[f] {
					rep[filepath.Join(dir, "zz_verif_"+filepath.Base(f))] = f
				}
			}
			ob, _ := json.Marshal(map[string]any{"Replace": rep})
			of := filepath.Join(tmp, "overlay.json")
			os.WriteFile(of, ob, 0o644)
			cmd := exec.Command(goRoot+"/bin/go", "test", "-vet=off", "-count=1", "-v", "-timeout=240s", "-overlay="+of, "-run=^TestVerif"+prop+"_", ".")
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_VALUES="+vf, "VERIF_DIR="+verifDir, "VERIF_REPO="+repoDir)
			out, err := cmd.CombinedOutput()
			txt := string(out)
			if err != nil && (strings.Contains(txt, "[build failed]") || strings.Contains(txt, "[setup failed]")) {
				n := len(skip)
				for _, f := range files {
					if strings.Contains(txt, "zz_verif_"+filepath.Base(f)+":") || strings.Contains(txt, f+":") || strings.Contains(txt, "/"+filepath.Base(f)+":") {
						skip[f] = true
					}
				}
				if len(skip) == n {
					res.notRun = append(res.notRun, pkg+": "+tail(txt, 400))
					break
				}
				for f := range skip {
					res.notRun = append(res.notRun, filepath.Base(f)+" does not fit the current code")
				}
				continue
			}
			res.scan(txt)
			if err != nil || res.unlisted {
				res.failed = true
				res.file = filepath.Join(outDir, "replay-"+sanitize(pkg)+".txt")
				os.WriteFile(res.file, []byte("cd "+dir+" && "+strings.Join(cmd.Args, " ")+"\nVERIF_SEED="+strconv.Itoa(seed)+"\noverlay: "+string(ob)+"\n\n"+txt), 0o644)
			}
			break
		}
	}
	if usesCorpus[prop] && theCorpus != nil && theCorpus.failure == "" {
		runCorpusReplay(&res, prop, tier, seed, outDir, tmp, vf)
	}
	return res
}

// runCorpusReplay: the harness against freshly generated proxies and clients.
func runCorpusReplay(res *replayResult, prop, tier string, seed int, outDir, tmp, vf string) {
	c := theCorpus
	for _, pkg := range c.testPkgs() {
		var fs []overlayFile
		for _, f := range c.overlay {
			if !strings.HasPrefix(filepath.Base(f.dst), "zz_verif_ct_") {
				fs = append(fs, f)
			}
		}
		found := false
		for _, f := range c.tests {
			if filepath.Base(filepath.Dir(f.dst)) == pkg {
				fs = append(fs, f)
				found = found || bytes.Contains(f.text, []byte("func TestVerif"+prop+"_"))
			}
		}
		if !found {
			continue
		}
		of := filepath.Join(tmp, "overlay-"+pkg+".json")
		writeOverlay(of, fs)
		bin := filepath.Join(tmp, pkg+".test")
		b := exec.Command(goRoot+"/bin/go", "test", "-vet=off", "-c", "-o", bin, "-overlay="+of, "./"+corpusRoot+"/"+pkg)
		b.Dir = repoDir
		if out, err := b.CombinedOutput(); err != nil {
			res.notRun = append(res.notRun, corpusRoot+"/"+pkg+": "+tail(string(out), 400))
			continue
		}
		cmd := exec.Command(bin, "-test.v", "-test.timeout=240s", "-test.run=^TestVerif"+prop+"_")
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_VALUES="+vf, "VERIF_DIR="+verifDir, "VERIF_REPO="+repoDir, "VERIF_TS="+filepath.Join(c.dir, "ts"))
		out, err := cmd.CombinedOutput()
		res.scan(string(out))
		if err != nil || res.unlisted {
			res.failed = true
			res.file = filepath.Join(outDir, "replay-"+pkg+".txt")
			os.WriteFile(res.file, []byte("the services of /verif/corpus, with code generated by the current tree; VERIF_SEED="+strconv.Itoa(seed)+" /verif/bin/gov replay "+prop+"\n\n"+string(out)), 0o644)
		}
	}
}

// scan reads what a harness printed.
func (res *replayResult) scan(txt string) {
	for _, l := range strings.Split(txt, "\n") {
		t := strings.TrimSpace(l)
		if i := strings.Index(t, "VERIF-EXEC "); i >= 0 {
			n, _ := strconv.Atoi(strings.Fields(t[i+11:])[0])
			res.executions += n
		}
		if i := strings.Index(t, "VERIF-KNOWN "); i >= 0 {
			key, _, _ := strings.Cut(t[i+12:], " ")
			listed := false
			for _, k := range loadKnown() {
				listed = listed || k.prop == res.prop && k.input == key
			}
			if listed {
				res.known = append(res.known, t[i+12:])
			} else {
				res.unlisted = true
				res.summary = append(res.summary, cut(t[i:], 400))
			}
		}
		if i := strings.Index(t, "VERIF-FAIL "); i >= 0 && len(res.summary) < 8 {
			res.summary = append(res.summary, cut(t[i:], 400))
		}
		if strings.HasPrefix(t, "--- PASS: ") || strings.HasPrefix(t, "--- FAIL: ") {
			if f := strings.Fields(t); len(f) > 2 && !strings.Contains(f[2], "/") {
				res.tests = append(res.tests, f[2])
			}
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// writeBaseline records what the unchanged tree looks like.
func writeBaseline() int {
	defer dropCorpus()
	ov, pats, err := loadSet(true)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	e, err := Load(LoadOpts{Dir: repoDir, Patterns: pats, Overlay: ov})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, d := range e.dropped {
		fmt.Println("DROPPED", d)
	}
	var cts []*Contract
	for _, ct := range e.ctList {
		if !ct.trusted {
			cts = append(cts, ct)
		}
	}
	b := &Baseline{Contracts: map[string]*BaseCt{}}
	reps := e.verifyAll(cts, 0, 600000)
	for i, r := range reps {
		// the search for invariants may have run out of time beside the others
		if !r.allDischarged() && len(cts[i].invs) > 0 {
			reps[i] = e.Verify(cts[i], 0, 600000)
		}
	}
	if err := saveHints(hintFile(), reps); err != nil {
		fmt.Println(err)
		return 2
	}
	for i, r := range reps {
		b.Contracts[cts[i].target] = &BaseCt{Opaque: r.Opaque, Inlined: r.Inlined}
		printRep(r)
	}
	t, _ := json.MarshalIndent(b, "", " ")
	os.WriteFile(filepath.Join(verifDir, "baseline.json"), append(t, '\n'), 0o644)
	return 0
}

// loadSet: the source files laid over the module and the packages to load.
func loadSet(corpus bool) ([]overlayFile, []string, error) {
	ov, err := contractOverlay()
	if err != nil || !corpus {
		return ov, defaultPatterns, err
	}
	c, err := getCorpus()
	if err != nil {
		return nil, nil, err
	}
	if c.failure != "" {
		return ov, defaultPatterns, nil
	}
	return append(ov, c.overlay...), append(append([]string(nil), defaultPatterns...), c.patterns...), nil
}

// usesCorpus: properties decided on generated code.
var usesCorpus = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C06": true, "C14": true, "C15": true}
