package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by name
	funcs map[string]*ssa.Function
	loops map[*ssa.Function]*loopInfo
	ginfo *globalInfo
}

const modPath = "github.com/akito0107/xsqlparser"

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gover: "+f+"\n", a...)
	os.Exit(3)
}

func Load() *Program {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repoDir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fatalf("load: %v", err)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			fatalf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]*loopInfo{}}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		if p.Pkg.Name() == "main" {
			continue
		}
		P.pkgs[p.Pkg.Name()] = p
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && f.Synthetic == "" && f.Pkg.Pkg.Name() != "main" {
			P.funcs[fname(f)] = f
		}
	}
	return P
}

// fname gives the name used in contracts: pkg.Func, (pkg.T).M, (*pkg.T).M
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + tstr(r.Type()) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Name() + "." + f.Name()
	}
	return f.String()
}

// types of package pkg that implement the interface, pointer receivers, sorted by name
func (P *Program) implementers(pkg, iface string) []types.Type {
	pk := P.pkgs[pkg]
	it := pk.Type(iface).Type().Underlying().(*types.Interface)
	var names []string
	for n, m := range pk.Members {
		if t, ok := m.(*ssa.Type); ok {
			if types.IsInterface(t.Type()) {
				continue
			}
			if types.Implements(types.NewPointer(t.Type()), it) {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	var out []types.Type
	for _, n := range names {
		out = append(out, types.NewPointer(pk.Type(n).Type()))
	}
	return out
}

func (P *Program) method(t types.Type, name string) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func isIface(t types.Type) bool { return types.IsInterface(t) }

// ---------- loops ----------

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	ord    int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
}

func (P *Program) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := P.loops[f]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	n := 0
	for _, b := range f.Blocks {
		if l := li.byHeader[b]; l != nil {
			l.ord = n
			n++
		}
	}
	P.loops[f] = li
	return li
}

func verifDir() string {
	if d := os.Getenv("GOVER_DIR"); d != "" {
		return d
	}
	e, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(e))
		if _, err := os.Stat(filepath.Join(d, "contracts")); err == nil {
			return d
		}
	}
	return "/verif"
}

func runCmd(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	b, err := c.CombinedOutput()
	return string(b), err
}
