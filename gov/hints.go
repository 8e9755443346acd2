package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
)

// Hints are the loop invariants (forms of the contracts' invariants and simple
// facts about the loops' variables), heap modes and events that the search for
// them found on the committed tree. A run tries them first, to save the search;
// each is checked again on entry to and around its loop like any other, and
// where they do not suffice the whole search is made.

type fnHint map[string]*loopHint

type loopHint struct {
	Cands  []string          `json:"cands"`
	Modes  map[string]string `json:"modes,omitempty"`
	Events []string          `json:"events,omitempty"`
}

type hintMiss struct{}

func (h *loopHint) has(name string) bool {
	if h == nil {
		return false
	}
	i := sort.SearchStrings(h.Cands, name)
	return i < len(h.Cands) && h.Cands[i] == name
}

func (h *loopHint) add(cands []*cand, modes map[string]string, ev map[string]bool) {
	cs := map[string]bool{}
	for _, n := range h.Cands {
		cs[n] = true
	}
	for _, c := range cands {
		cs[c.name] = true
	}
	h.Cands = sortedKeys(cs)
	rank := map[string]int{"": 0, "top": 1, "entry": 2, "full": 3}
	for k, m := range modes {
		if len(k) > 3 && k[:3] == "IT:" {
			continue
		}
		if rank[m] > rank[h.Modes[k]] {
			h.Modes[k] = m
		}
	}
	es := map[string]bool{}
	for _, n := range h.Events {
		es[n] = true
	}
	for n := range ev {
		es[n] = true
	}
	h.Events = sortedKeys(es)
}

func (e *Engine) loadHints(path string) {
	b, err := os.ReadFile(path)
	if err != nil || os.Getenv("GOV_NOHINTS") != "" {
		return
	}
	json.Unmarshal(b, &e.hints)
}

func saveHints(path string, reps []*FnReport) error {
	all := map[string]fnHint{}
	for _, r := range reps {
		if len(r.learn) > 0 && r.allDischarged() {
			all[r.Target] = r.learn
		}
	}
	b, err := json.MarshalIndent(all, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func hintFile() string { return filepath.Join(verifDir, "hints.json") }
