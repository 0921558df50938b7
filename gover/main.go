package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

var checks = map[string]func(*Program, *Report){
	"C05": checkC05,
	"C06": checkC06,
	"L1":  func(P *Program, rep *Report) { newParse(P, rep).level1("") },
	"L2":  parseCheck("L2", "SQL", "FILE", "NEW", "NODES", "LEX", "LEAF", "WORD"),
	"C01": parseCheck("C01", "SQL", "FILE", "NODES", "WORD", "ALIAS"),
	"C02": parseCheck("C02", "ALIAS"),
	"C03": parseCheck("C03", "SQL", "FILE", "NEW", "LEX"),
	"C04": parseCheck("C04", "SQL", "FILE", "NEW", "LEX"),
	"C07": parseCheck("C07", "SQL", "FILE", "NEW", "NODES"),
	"C15": parseCheck("C15", "SQL", "FILE", "NEW", "LEAF", "ALIAS"),
	"C16": parseCheck("C16", "SQL", "NEW", "WORD", "ALIAS"),
	"C17": parseCheck("C17", "SQL", "FILE", "NEW", "ALIAS"),
	"C08": checkC08,
	"C09": checkC09,
	"C10": checkC10,
	"C11": checkC11,
	"C12": checkC12,
	"C14": checkC14,
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover Cxx")
		os.Exit(2)
	}
	if d := os.Getenv("GOVER_REPO"); d != "" {
		repoDir = d
	}
	for _, p := range []string{"L2", "C01", "C02", "C03", "C04", "C07", "C13", "C15", "C16", "C17"} {
		jobFns[p] = runParseJob
	}
	prop := os.Args[1]
	if prop == "-worker" {
		workerMain(os.Args[2])
		return
	}
	f := checks[prop]
	if f == nil {
		fatalf("no check for %s", prop)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	rep := NewReport(prop)
	rep.seed = seed
	P := Load()
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("internal error: %v\n%s", p, debug.Stack())
			}
		}()
		f(P, rep)
		done <- ""
	}()
	// An obligation that cannot be decided is a failed obligation, never silence.
	select {
	case why := <-done:
		if why != "" {
			rep.obs = append(rep.obs, &Obligation{Fn: "gover", Kind: "verifier", Detail: "the verifier could not process the code", Why: why})
		}
	case <-time.After(600 * time.Second):
		rep.obs = append(append([]*Obligation{}, rep.obs...), &Obligation{Fn: "gover", Kind: "verifier", Detail: "not all obligations were decided within 600 s"})
	}
	os.Exit(rep.finish(tier, seed))
}
