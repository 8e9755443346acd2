package gotsrpc

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// verifRun is the bookkeeping of one concrete harness.
type verifRun struct {
	t    *testing.T
	rng  *rand.Rand
	n    int
	vals []string
	bad  int
	seen map[string]bool
}

func newVerifRun(t *testing.T) *verifRun {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v := &verifRun{t: t, rng: rand.New(rand.NewSource(int64(seed) + 7))}
	if b, err := os.ReadFile(os.Getenv("VERIF_VALUES")); err == nil {
		_ = json.Unmarshal(b, &v.vals)
	}
	t.Cleanup(func() { fmt.Printf("VERIF-EXEC %d\n", v.n) })
	return v
}

func (v *verifRun) rounds(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 20
	}
	return quick
}

func (v *verifRun) ok(cond bool, format string, args ...interface{}) bool {
	v.n++
	if !cond {
		v.bad++
		if v.bad <= 5 {
			m := fmt.Sprintf(format, args...)
			if len(m) > 600 {
				m = m[:600] + "…"
			}
			fmt.Printf("VERIF-FAIL %s\n", m)
		}
		v.t.Fail()
	}
	return cond
}

// known: a failure listed in known_findings.txt under this name.
func (v *verifRun) known(name string, cond bool, format string, args ...interface{}) {
	v.n++
	if !cond && !v.seen[name] {
		if v.seen == nil {
			v.seen = map[string]bool{}
		}
		v.seen[name] = true
		fmt.Printf("VERIF-KNOWN %s %s\n", name, fmt.Sprintf(format, args...))
	}
}

// str is a short string, sometimes one of the counterexample's.
func (v *verifRun) str() string {
	if len(v.vals) > 0 && v.rng.Intn(3) == 0 {
		return v.vals[v.rng.Intn(len(v.vals))]
	}
	parts := []string{"", "a", "b", ": ", "x: y", "error", "Ä", "foo", " ", "1", "\n", "a: a"}
	s := ""
	for i := v.rng.Intn(4); i >= 0; i-- {
		s += parts[v.rng.Intn(len(parts))]
	}
	return s
}

// try runs f and reports a panic as its message.
func verifTry(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// verifSilence runs f with the code's own messages discarded.
func verifSilence(f func()) {
	o, e := os.Stdout, os.Stderr
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = n
		defer n.Close()
	}
	defer func() { os.Stdout, os.Stderr = o, e }()
	f()
}
