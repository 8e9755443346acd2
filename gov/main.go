package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
)

var verifDir = "/verif"
var repoDir = "/repo"

// contractOverlay lays the contract files over the module: a file in
// contracts/root goes to the module root, contracts/a/b to a/b.
func contractOverlay() ([]overlayFile, error) {
	var out []overlayFile
	base := filepath.Join(verifDir, "contracts")
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		dir, f := filepath.Split(rel)
		dir = strings.TrimSuffix(dir, "/")
		name := "zz_verif_" + f
		switch {
		case dir == "verifspec":
			name = f
		case dir == "root":
			dir = ""
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out = append(out, overlayFile{src: p, dst: filepath.Join(repoDir, dir, name), text: b})
		return nil
	})
	return out, err
}

var defaultPatterns = []string{".", "./config", "./prometheus", "./cmd/...", "./example/..."}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func main() {
	if d := os.Getenv("GOV_VERIF"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("GOV_REPO"); d != "" {
		repoDir = d
	}
	setGoEnv()
	if len(os.Args) < 2 {
		fmt.Println("usage: gov verify [filter...] | check <property>")
		os.Exit(2)
	}
	if pf := os.Getenv("GOV_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "corpus":
		c, err := getCorpus()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Println(c.failure)
		for _, f := range append(c.overlay, c.tests...) {
			d := filepath.Join(os.Args[2], strings.TrimPrefix(f.dst, repoDir))
			os.MkdirAll(filepath.Dir(d), 0o755)
			os.WriteFile(d, f.text, 0o644)
		}
		dropCorpus()
	case "replay":
		// the concrete harness alone
		if usesCorpus[os.Args[2]] {
			if c, err := getCorpus(); err != nil || c.failure != "" {
				fmt.Println(err, c.failure)
				os.Exit(1)
			}
			defer dropCorpus()
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		out := filepath.Join(verifDir, "out", os.Args[2])
		os.MkdirAll(out, 0o755)
		r := runReplay(os.Args[2], os.Getenv("VERIF_TIER"), seed, out, nil, true)
		fmt.Printf("failed %v executions %d tests %v\n", r.failed, r.executions, r.tests)
		for _, l := range append(append(append([]string{r.file}, r.notRun...), r.known...), r.summary...) {
			fmt.Println(l)
		}
	case "verify":
		debugVerify(os.Args[2:])
	case "check":
		if len(os.Args) < 3 {
			os.Exit(2)
		}
		os.Exit(runCheck(os.Args[2]))
	case "baseline":
		os.Exit(writeBaseline())
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

// debugVerify verifies the contracts whose target or property matches.
func debugVerify(filter []string) {
	ov, pats, err := loadSet(os.Getenv("GOV_CORPUS") != "")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer dropCorpus()
	e, err := Load(LoadOpts{Dir: repoDir, Patterns: pats, Overlay: ov})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, d := range e.dropped {
		fmt.Println("DROPPED", d)
	}
	var cts []*Contract
	for _, ct := range e.ctList {
		ok := len(filter) == 0
		for _, f := range filter {
			if strings.Contains(ct.target, f) || has(ct.props, f) {
				ok = true
			}
		}
		if ok && !ct.trusted {
			cts = append(cts, ct)
		}
	}
	e.loadHints(hintFile())
	reps := e.verifyAll(cts, 0, 300000)
	for _, r := range reps {
		printRep(r)
	}
}

func (e *Engine) verifyAll(cts []*Contract, unroll int, budget int64) []*FnReport {
	reps := make([]*FnReport, len(cts))
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	for i, ct := range cts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			reps[i] = e.Verify(ct, unroll, budget)
		}()
	}
	wg.Wait()
	return reps
}

func printRep(r *FnReport) {
	n := map[string]int{}
	for _, o := range r.Obls {
		n[o.Status]++
	}
	fmt.Printf("== %s: %d obligations, %d discharged, %d refuted, %d unknown, %d paths, %d ms", r.Fn, len(r.Obls), n["discharged"], n["refuted"], n["unknown"], r.Paths, r.Ms)
	if r.Problem != "" {
		fmt.Printf("  PROBLEM %s", r.Problem)
	}
	fmt.Println()
	seen := map[string]bool{}
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			k := o.Status + " " + o.Kind + ": " + o.Name
			if !seen[k] {
				seen[k] = true
				fmt.Println("   ", k, "|", o.Path, "|", o.Detail)
			}
		}
	}
	if os.Getenv("GOV_V") != "" {
		fmt.Println("   opaque:", r.Opaque)
		fmt.Println("   assumed:", r.Assumed)
		fmt.Println("   inlined:", r.Inlined)
		fmt.Println("   contracts used:", r.UsedCts)
		slow := append([]*Obligation(nil), r.Obls...)
		sort.Slice(slow, func(i, j int) bool { return slow[i].Ms > slow[j].Ms })
		for i := 0; i < len(slow) && i < 5; i++ {
			fmt.Println("   slow:", slow[i].Ms, "ms", slow[i].Name, slow[i].Path, slow[i].Backend)
		}
		names := map[string]int{}
		for _, o := range r.Obls {
			names[o.Kind+": "+o.Name]++
		}
		var ks []string
		for k := range names {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("     ", names[k], k)
		}
	}
}
