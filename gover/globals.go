package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables that no function but the package initialiser assigns, and whose
// address is never taken, hold the value the initialiser gives them (obtained by running the
// initialiser symbolically).
type globalInfo struct {
	vals map[*Term]*Term
	mem  map[*Term]*Term // objects reachable from them (maps)

	mutable map[string]bool // assigned or exposed outside the initialisers
}

func (P *Program) globals() *globalInfo {
	if P.ginfo != nil {
		return P.ginfo
	}
	gi := &globalInfo{vals: map[*Term]*Term{}, mem: map[*Term]*Term{}, mutable: map[string]bool{}}
	P.ginfo = gi
	mutable := map[*ssa.Global]bool{}
	for _, f := range P.allFuncs() {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue // load
					}
					if _, ok := in.(*ssa.Store); ok && isInit {
						continue
					}
					if isInit {
						continue
					}
					mutable[g] = true
					if strings.HasPrefix(f.Name(), "init#") {
						continue // runs before anything else
					}
					gi.mutable[g.RelString(nil)] = true
				}
			}
		}
	}
	for _, pk := range P.pkgs {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		f := pk.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		x := NewExec0(P, "", NewSolver())
		x.mute = 1
		x.top = f
		st := newState()
		x.model = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.fn != nil && strings.HasPrefix(ci.fn.Name(), "init") && ci.fn.Synthetic != "" && ci.fn != f {
				return []Outcome{{st: st}}, true
			}
			return nil, false
		}
		for n, mb := range pk.Members {
			if g, ok := mb.(*ssa.Global); ok && strings.HasPrefix(n, "init$guard") {
				st.mem[mk("global", SRef, g.RelString(nil), 0, g.Type())] = False
			}
		}
		for _, e := range x.Run(f, nil, nil, st, nil) {
			if e.kind != exRet {
				continue
			}
			for _, mb := range pk.Members {
				g, ok := mb.(*ssa.Global)
				if !ok || mutable[g] {
					continue
				}
				a := mk("global", SRef, g.RelString(nil), 0, g.Type())
				if v, ok := e.st.mem[a]; ok {
					gi.vals[a] = v
				}
			}
			for a, v := range e.st.mem {
				if a.Op == "uf" || isFreshRoot(a) {
					gi.mem[a] = v
				}
			}
		}
		x.sol.Close()
	}
	return gi
}

func (P *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range P.funcs {
		add(f)
	}
	for _, pk := range P.pkgs {
		add(pk.Func("init"))
	}
	return out
}
