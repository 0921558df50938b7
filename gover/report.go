package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	seed     int64
	input    string // a failing input, once the search has run
	searched bool
	prop     string
	obs      []*Obligation
	fns      map[string]bool
	inlined  map[string]bool
	assumed  map[string]bool
	notes    []string
	sol      *Solver
	start    time.Time
	paths    int
	stats    map[string]int
	extra    map[string]interface{}
	keep     func(kind string) bool
}

func NewReport(prop string) *Report {
	return &Report{prop: prop, fns: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, start: time.Now(), sol: NewSolver(), stats: map[string]int{}, extra: map[string]interface{}{}}
}

func (r *Report) exec(P *Program, prop string) *Exec {
	x := NewExec0(P, prop, r.sol)
	x.keep = r.keep
	return x
}

func (r *Report) note(s string) { r.notes = append(r.notes, s) }

func (r *Report) done(x *Exec, f *ssa.Function) {
	r.obs = append(r.obs, x.obs...)
	x.obs = nil
	if f != nil {
		r.fns[fname(f)] = true
	}
	for k := range x.inlined {
		r.inlined[k] = true
	}
	for k := range x.assumed {
		r.assumed[k] = true
	}
	r.paths += x.paths
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// failing obligations, one per key
func (r *Report) failed() []*Obligation {
	var out []*Obligation
	seen := map[string]bool{}
	for _, o := range r.obs {
		if !o.OK && !seen[o.Key()] {
			seen[o.Key()] = true
			out = append(out, o)
		}
	}
	return out
}

func (r *Report) counts() (n, ok int) {
	type st struct{ ok bool }
	m := map[string]bool{}
	for _, o := range r.obs {
		if v, have := m[o.Key()]; have {
			m[o.Key()] = v && o.OK
		} else {
			m[o.Key()] = o.OK
		}
	}
	for _, v := range m {
		n++
		if v {
			ok++
		}
	}
	return
}

var baseTrust = []string{
	"gover itself: the SSA-to-contract symbolic executor in /verif/gover (weakest link: its models of Go's memory, slices, maps, interfaces and of the standard library functions named below)",
	"golang.org/x/tools/go/ssa as the translation of the Go source, and the Go compiler and runtime",
	"z3 (z3-new 5.3.2) for the remaining arithmetic and equality goals",
	"machine integers are treated as mathematical integers (no overflow)",
	"slices are treated as values; that no list is extended in memory that another list shows is checked, for the parser and the tokenizer (C01, C02, C05, C13, C15, C16, C17: obligations of kind aliasing), by a flow-insensitive analysis of their SSA form that is part of gover",
	"interface values hold no typed nil pointers, and freshly allocated objects differ from all objects of the input",
}

func (r *Report) evidence(tier string, seed int64, viol int, known []string) {
	n, ok := r.counts()
	kinds := map[string]int{}
	for _, o := range r.obs {
		kinds[o.Kind]++
	}
	cov := map[string]interface{}{
		"obligations":              n,
		"discharged":               ok,
		"checker_cmd":              "./check.sh " + r.prop,
		"trusted_base":             append(append([]string{}, baseTrust...), keysOf(r.assumed)...),
		"functions_under_contract": keysOf(r.fns),
		"functions_inlined":        keysOf(r.inlined),
		"obligation_instances":     len(r.obs),
		"obligation_kinds":         kinds,
		"symbolic_paths":           r.paths,
		"solver":                   map[string]interface{}{"name": r.sol.name, "queries": r.sol.Q, "cache_hits": r.sol.Hits, "unknown": r.sol.Unk, "time_s": r.sol.Time.Seconds()},
		"backends":                 "syntactic simplifier of gover (most obligations), " + r.sol.name,
		"notes":                    r.notes,
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": keysOf(r.assumed), "wall_s": time.Since(r.start).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0644); err != nil {
		fatalf("evidence: %v", err)
	}
}

// Finding is one entry of known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Fn       string `json:"fn"`
	Kind     string `json:"kind"`
	Detail   string `json:"detail"` // substring of the obligation detail
	What     string `json:"what"`
	Input    string `json:"input"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var fs []Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	return fs
}

// openFindings: some listed finding is not repaired.
func openFindings() bool {
	for _, f := range loadFindings() {
		if f.Status == "known" {
			return true
		}
	}
	return false
}

func (f Finding) matches(prop string, o *Obligation) bool {
	return f.Status == "known" && f.Property == prop && f.Fn == o.Fn && f.Kind == o.Kind && strings.Contains(o.Detail, f.Detail)
}

// finish prints verdicts and returns the exit code.
func (r *Report) finish(tier string, seed int64) int {
	fs := loadFindings()
	var viol []*Obligation
	var known []string
	used := map[int]bool{}
	for _, o := range r.failed() {
		k := -1
		for i, f := range fs {
			if f.matches(r.prop, o) {
				k = i
			}
		}
		if k >= 0 {
			if !used[k] {
				used[k] = true
				known = append(known, fs[k].What)
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, fs[k].What)
			}
			continue
		}
		viol = append(viol, o)
	}
	n, ok := r.counts()
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, %d solver queries, %.1fs\n", r.prop, len(r.fns), n, ok, r.sol.Q, time.Since(r.start).Seconds())
	r.evidence(tier, seed, len(viol), known)
	if len(viol) == 0 {
		return 0
	}
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, r.prop+".txt")
	var b strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&b, "FAILED %s\n  %s\n  %s\n  %s\n\n", o.Fn, o.Kind+": "+o.Detail, o.Pos, o.Why)
	}
	for i, o := range viol {
		if i == 20 {
			fmt.Printf("... %d more\n", len(viol)-20)
			break
		}
		fmt.Printf("failed obligation: %s %s: %s (%s)\n", o.Fn, o.Kind, o.Detail, o.Pos)
	}
	input := r.input
	if !r.searched && os.Getenv("GOVER_NOREPLAY") == "" {
		input = replaySearch(r.prop, viol, seed)
	}
	if input != "" {
		b.WriteString("FAILING INPUT (replayed against the code in " + repoDir + ")\n" + input + "\n")
	}
	os.WriteFile(path, []byte(b.String()), 0644)
	if input != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", r.prop, path)
	}
	return 1
}
