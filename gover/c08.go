package main

import (
	"fmt"
	"go/types"
	"strings"
)

type textPath struct {
	st  *State
	out *Term
}

type nodeText struct {
	nt    nodeType
	x     *Exec
	recv  *Term
	paths []textPath
}

// runText executes the type's WriteTo on a destination that does not fail.
// With peel set, the first iterations of its loops are executed apart from the rest.
func runText(P *Program, rep *Report, nt nodeType, prop string, peel int) *nodeText {
	f := P.method(nt.T, "WriteTo")
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	x := rep.exec(P, prop)
	x.peel = peel
	m := &wmodel{nodeI: P.nodeIface(), text: true}
	x.model = m.model
	x.isLog = isOutLog
	x.checkPanics = true
	x.top = f
	st := newState()
	recv := Sym("n", SRef, nt.T)
	m.recv = Box(recv, nt.T)
	wfAssume(P, x, st, nt, recv)
	lists := map[string]bool{}
	if r := grammar(P).rules[nt.name]; r != nil {
		for l := range r.listFields() {
			lists["sqlast."+nt.name+"."+l] = true
		}
	}
	x.prover = func(x *Exec, st *State, goal *Term) (bool, bool) { return elemNonNil(goal, lists) }
	w := Sym("w", SRef, f.Params[1].Type())
	st.assume(Not(Eq(w, Nil)))
	st.mem[ghostOut(w)] = Str("")
	nt2 := &nodeText{nt: nt, x: x, recv: recv}
	for _, e := range x.Run(f, []*Term{recv, w}, nil, st, nil) {
		if e.kind == exRet {
			nt2.paths = append(nt2.paths, textPath{e.st, e.st.mem[ghostOut(w)]})
		} else {
			x.Ob(fname(f), "no-panic", "WriteTo does not panic", false, "explicit panic: "+e.pval.String()+pathStr(e.st), f.Pos())
		}
	}
	return nt2
}

// elemNonNil: elements of the node's lists are non-nil (well-formedness of the tree).
func elemNonNil(goal *Term, lists map[string]bool) (bool, bool) {
	if goal.Op == "not" && goal.A[0].Op == "eq" {
		for i, a := range goal.A[0].A {
			if a.Op == "at" && goal.A[0].A[1-i] == Nil && a.A[0].Op == "fld" && lists[a.A[0].S] {
				return true, true
			}
		}
	}
	return false, false
}

func checkC08(P *Program, rep *Report) {
	g := grammar(P)
	edges := map[string]edgeFact{}
	var all []*nodeText
	for _, nt := range nodeTypes(P) {
		t := runText(P, rep, nt, "C08", 0)
		if t == nil {
			continue
		}
		if t.failed() {
			if u := runText(P, rep, nt, "C08", 1); !u.failed() {
				t = u
			}
		}
		all = append(all, t)
		ef := edgeFact{true, true, false}
		for _, p := range t.paths {
			ps := pieces(p.out)
			if len(ps) == 0 {
				ef.mayEmpty = true
				continue
			}
			a, b := ps[0], ps[len(ps)-1]
			if !(a.Op == "str" && strings.IndexByte(" \n\t", a.S[0]) >= 0) {
				ef.startsWS = false
			}
			if !(b.Op == "str" && strings.IndexByte(" \n\t", b.S[len(b.S)-1]) >= 0) {
				ef.endsWS = false
			}
		}
		edges[nt.name] = ef
	}
	for _, t := range all {
		f := P.method(t.nt.T, "WriteTo")
		r := g.rules[t.nt.name]
		if r == nil {
			rep.note("node type " + t.nt.name + " has no grammar rule: its text is not specified")
			rep.done(t.x, f)
			continue
		}
		derive := func(t *nodeText) {
			for k, p := range t.paths {
				det := fmt.Sprintf("return %d: the text written is a derivation of %s", k+1, t.nt.name)
				m := &matcher{P: P, x: t.x, g: g, edges: edges, raw: r.Flags["raw"]}
				items, why := lexText(p.out, m.raw)
				ok := why == ""
				if ok {
					ctx := &bindCtx{x: t.x, st: p.st, recv: t.recv, T: t.nt.T.Underlying().(*types.Pointer).Elem()}
					ok = m.match(p.st, items, 0, celems(r.Body, ctx))
					why = m.fail
				}
				if ok {
					if w := m.checkGlue(p.st, items); w != "" {
						ok, why = false, w
					}
				}
				if !ok {
					why += "\n  text: " + itemsStr(items) + "\n  path: " + pathStr(p.st)
				}
				t.x.Ob(fname(f), "post:derivation", det, ok, why, f.Pos())
			}
		}
		derive(t)
		if t.failed() && t.x.peel == 0 {
			if u := runText(P, rep, t.nt, "C08", 1); !u.failed() {
				if derive(u); !u.failed() {
					t = u
				}
			}
		}
		t.x.Ob(fname(f), "reachable", "WriteTo has a normal return", len(t.paths) > 0, "", f.Pos())
		rep.done(t.x, f)
	}
}

func (t *nodeText) failed() bool {
	for _, o := range t.x.obs {
		if !o.OK {
			return true
		}
	}
	return false
}
