package main

import (
	"go/types"
	"sort"
	"strings"
)

// Derivation predicates. They are ghost facts: no solver sees them; they are proved from each
// other by the rules below.
//
//	⊢N(n,a,b)      the tokens a .. b-1 are a derivation of node n
//	⊢L(sep,s,a,b)  the tokens a .. b-1 are the nodes of the non-empty list s, with a token of kind
//	               sep between neighbours (sep < 0: nothing between)
//	⊢T(sep,s,a,b)  the same, s possibly empty, with sep after every node
//	⊢Z(sep,s,a,b)  s is empty and a = b, or ⊢L(sep,s,a,b)

func dN(n, a, b *Term) *Term      { return UF("⊢N", SBool, n, a, b) }
func dL(sep, s, a, b *Term) *Term { return UF("⊢L", SBool, sep, s, a, b) }
func dT(sep, s, a, b *Term) *Term { return UF("⊢T", SBool, sep, s, a, b) }
func dZ(sep, s, a, b *Term) *Term { return UF("⊢Z", SBool, sep, s, a, b) }

func isPred(t *Term) bool { return t.Op == "uf" && strings.HasPrefix(t.S, "⊢") }

var predMemo = map[*Term]bool{}

// containsPred: t mentions a derivation predicate.
func containsPred(t *Term) bool {
	if v, ok := predMemo[t]; ok {
		return v
	}
	r := isPred(t)
	if !r && (t.Op == "not" || t.Op == "and") {
		for _, a := range t.A {
			if containsPred(a) {
				r = true
			}
		}
	}
	predMemo[t] = r
	return r
}

// preds: the predicates called name that hold in st.
func (m *parseModel) preds(st *State, name string) []*Term {
	var out []*Term
	for _, g := range st.gh {
		if g.Op == "uf" && g.S == name {
			out = append(out, g)
		} else if g.Op == "not" && g.A[0].Op == "and" {
			// a disjunction: all but one of its members are false here
			var only *Term
			n := 0
			for _, a := range g.A[0].A {
				k := Not(a)
				if isPred(k) {
					only = k
					n++
					continue
				}
				if e := st.eval(k); e == True {
					n = 9
				} else if e != False && m.x.feasible(st, k) {
					n = 9
				}
			}
			if n == 1 && only.S == name {
				out = append(out, only)
			}
		}
	}
	return out
}

func (m *parseModel) eqPos(st *State, a, b *Term) bool {
	return a == b || m.x.Prove(st, Eq(a, b))
}

// node: e, an element of a list or the value of a field, as a node.
func (m *parseModel) node(e *Term) *Term {
	for e.Op == "box" && e.A[0].Op == "unbox" && e.A[0].S == e.S {
		e = e.A[0].A[0]
	}
	if e.Op == "box" {
		return e
	}
	if e.Op == "alloc" && e.T != nil {
		return Box(e, types.NewPointer(e.T))
	}
	if e.T != nil {
		if _, ok := e.T.Underlying().(*types.Pointer); ok {
			return Box(e, e.T)
		}
	}
	return e
}

func (m *parseModel) sepAt(st *State, sep, pos *Term) bool {
	if _, k := sepParts(sep); k == nil {
		return true
	}
	_, k := sepParts(sep)
	return m.x.Prove(st, And(Lt(pos, m.M), Eq(m.kind(st, m.tok(st, pos)), k)))
}

// sepParts: the width of a separator and its kind.
func sepParts(sep *Term) (int64, *Term) {
	if sep.Op == "int" && sep.I < 0 {
		return 0, nil
	}
	return 1, sep
}

// proveList proves name(sep,s,a,b).
func (m *parseModel) proveList(st *State, name string, sep, s, a, b *Term, d int) bool {
	if d > 40 {
		return false
	}
	x := m.x
	if st.pcs[UF(name, SBool, sep, s, a, b)] {
		return true
	}
	for s.Op == "ite" {
		c := st.eval(s.A[0])
		if c != True && c != False {
			break
		}
		if c == True {
			s = s.A[1]
		} else {
			s = s.A[2]
		}
	}
	if name == "⊢Z" {
		if isEmptySeq(s) {
			return m.eqPos(st, a, b)
		}
		for _, f := range m.preds(st, "⊢Z") {
			if f.A[0] == sep && f.A[1] == s && m.eqPos(st, f.A[2], a) && m.eqPos(st, f.A[3], b) {
				return true
			}
		}
		return m.proveList(st, "⊢L", sep, s, a, b, d+1)
	}
	w, _ := sepParts(sep)
	if name == "⊢T" && isEmptySeq(s) {
		return m.eqPos(st, a, b)
	}
	for _, f := range m.preds(st, name) {
		if f.A[0] == sep && f.A[1] == s && m.eqPos(st, f.A[2], a) && m.eqPos(st, f.A[3], b) {
			return true
		}
	}
	if name == "⊢L" {
		for _, f := range m.preds(st, "⊢Z") {
			if f.A[0] == sep && f.A[1] == s && m.eqPos(st, f.A[2], a) && m.eqPos(st, f.A[3], b) && x.Prove(st, Le(One, Len(s))) {
				return true
			}
		}
	}
	if w == 0 && name == "⊢T" {
		return m.proveList(st, "⊢Z", sep, s, a, b, d+1)
	}
	if name == "⊢T" {
		e := Sub(b, One)
		return m.sepAt(st, sep, e) && m.proveList(st, "⊢L", sep, s, a, e, d+1)
	}
	last, rest := splitLast(s)
	if last == nil {
		return false
	}
	n := m.node(last)
	for _, p := range m.ends(st, sep, rest, a) {
		if m.proveNode(st, n, p, b, d+1) {
			return true
		}
	}
	return false
}

func isEmptySeq(s *Term) bool { return s.Op == "nilseq" || s.Op == "seq" && len(s.A) == 0 }

func splitLast(s *Term) (last, rest *Term) {
	switch s.Op {
	case "snoc":
		return s.A[1], s.A[0]
	case "seq":
		if n := len(s.A); n > 1 {
			return s.A[n-1], Seq(s.A[:n-1]...)
		} else if n == 1 {
			return s.A[0], NilSeq
		}
	case "cat":
		if l, r := splitLast(s.A[len(s.A)-1]); l != nil {
			base := s.A[0]
			for _, k := range s.A[1 : len(s.A)-1] {
				base = Cat(base, k)
			}
			if !isEmptySeq(r) {
				base = Cat(base, r)
			}
			return l, base
		}
	}
	return nil, nil
}

// ends: the positions p at which another element may follow the list s that starts at a
// (separator included).
func (m *parseModel) ends(st *State, sep, s, a *Term) []*Term {
	if isEmptySeq(s) {
		return []*Term{a}
	}
	w, _ := sepParts(sep)
	var out []*Term
	add := func(p *Term) {
		for _, q := range out {
			if q == p {
				return
			}
		}
		out = append(out, p)
	}
	for _, n := range []string{"⊢L", "⊢T", "⊢Z"} {
		for _, f := range m.preds(st, n) {
			if f.A[0] != sep || f.A[1] != s || !m.eqPos(st, f.A[2], a) {
				continue
			}
			p := f.A[3]
			switch {
			case n == "⊢T":
				add(p)
			case w == 0:
				add(p)
			default:
				if n == "⊢Z" && !m.x.Prove(st, Le(One, Len(s))) {
					if m.x.Prove(st, Eq(Len(s), Zero)) {
						add(a)
					}
					continue
				}
				if m.sepAt(st, sep, p) {
					add(Add(p, One))
				}
			}
		}
	}
	last, rest := splitLast(s)
	if last != nil {
		n := m.node(last)
		for _, p := range m.ends(st, sep, rest, a) {
			for _, e := range m.nodeEnds(st, n, p) {
				if w == 0 {
					add(e)
				} else if m.sepAt(st, sep, e) {
					add(Add(e, One))
				}
			}
		}
	}
	return out
}

// nodeEnds: the positions at which the derivation of n that starts at p is known to end.
func (m *parseModel) nodeEnds(st *State, n, p *Term) []*Term {
	var out []*Term
	for _, f := range m.preds(st, "⊢N") {
		if f.A[0] == n && m.eqPos(st, f.A[1], p) {
			out = append(out, f.A[2])
		}
	}
	return out
}

// proveNode proves ⊢N(n,a,b).
func (m *parseModel) proveNode(st *State, n, a, b *Term, d int) bool {
	if st.pcs[dN(n, a, b)] {
		return true
	}
	for _, f := range m.preds(st, "⊢N") {
		if f.A[0] == n && m.eqPos(st, f.A[1], a) && m.eqPos(st, f.A[2], b) {
			return true
		}
	}
	return false
}

func (m *parseModel) provePred(st *State, g *Term) bool {
	if m.deriv && g.S != "⊢P" {
		return m.provePred2(st, g)
	}
	switch g.S {
	case "⊢N":
		return m.proveNode(st, g.A[0], g.A[1], g.A[2], 0)
	case "⊢L", "⊢T", "⊢Z":
		return m.proveList(st, g.S, g.A[0], g.A[1], g.A[2], g.A[3], 0)
	case "⊢P":
		return m.provePlain(st, g)
	case "⊢M", "⊢G", "⊢F", "⊢S", "⊢O":
		return m.proveCmt(st, g)
	}
	return st.pcs[g]
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
