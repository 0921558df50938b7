package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop verification: the loop's modified variables and cells are havocked, candidate
// invariants (generic templates plus contract-specific ones) are filtered to an inductive
// set (each kept candidate is proved on entry and preserved by every path through the body),
// and append-only ghost logs are summarised as "for each iteration k: append delta(k)".

type LoopCtx struct {
	fr     *Frame
	lp     *Loop
	vars   []*Term          // head symbols
	entry  map[*Term]*Term  // head symbol -> entry value
	desc   map[*Term]string // head symbol -> phi comment or cell address
	cellOf map[*Term]*Term  // head symbol -> cell address (for memory cells)
	phiOf  map[*Term]*ssa.Phi
	st0    *State // state at entry
	ivar   *Term
}

func (lc *LoopCtx) At(t *Term, m map[*Term]*Term) *Term { return Subst(t, m) }

type RepAlt struct {
	conds []*Term
	delta *Term
}

type RepInfo struct {
	ivar *Term
	lo   *Term
	alts []RepAlt
}

var reps = map[string]*RepInfo{}
var repSeq int

// loop executes a loop from the edge from -> header. Iterations are taken off its front while
// the number of them is a small constant, and x.peel more of them when that is set (the paths
// that leave in the first iteration, and the loop started at the second: the same executions);
// what remains is verified with an invariant.
func (x *Exec) loop(fr *Frame, st0 *State, lp *Loop, from *ssa.BasicBlock) []Exit {
	return x.loopPeel(fr, st0, lp, from, x.peel)
}

func (x *Exec) loopPeel(fr *Frame, st0 *State, lp *Loop, from *ssa.BasicBlock, peel int) []Exit {
	if c := x.constTrip(fr, st0, lp, from); c {
	} else if peel > 0 {
		peel--
	} else {
		return x.loopInv(fr, st0, lp, from)
	}
	var out []Exit
	for _, e := range x.region(fr, st0, lp.header, from, lp) {
		if e.kind == exEdge && e.to == lp.header {
			out = append(out, x.loopPeel(fr, e.st, lp, e.from, peel)...)
		} else {
			out = append(out, e)
		}
	}
	return out
}

// constTrip: the loop's condition compares two constants that are at most 8 apart.
func (x *Exec) constTrip(fr *Frame, st0 *State, lp *Loop, from *ssa.BasicBlock) bool {
	if len(lp.header.Instrs) == 0 {
		return false
	}
	cond, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op.String() != "<" || cmp.Block() != lp.header {
		return false
	}
	var ev func(v ssa.Value, d int) *Term
	ev = func(v ssa.Value, d int) *Term {
		if d > 3 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Const:
			return constTerm(v)
		case *ssa.Phi:
			if v.Block() == lp.header {
				for i, p := range lp.header.Preds {
					if p == from {
						return x.val(fr, st0, v.Edges[i])
					}
				}
				return nil
			}
		case *ssa.BinOp:
			if v.Block() == lp.header {
				if v.Op.String() != "+" {
					return nil
				}
				a, b := ev(v.X, d+1), ev(v.Y, d+1)
				if a == nil || b == nil || a.Sort != SInt || b.Sort != SInt {
					return nil
				}
				return Add(a, b)
			}
		}
		return st0.env[v]
	}
	l, r := ev(cmp.X, 0), ev(cmp.Y, 0)
	return l != nil && r != nil && l.Op == "int" && r.Op == "int" && l.I < r.I && r.I-l.I <= 8
}

func (x *Exec) loopInv(fr *Frame, st0 *State, lp *Loop, from *ssa.BasicBlock) []Exit {
	watermark := allocSeq
	modified := map[*Term]types.Type{} // cells
	logCells := map[*Term]bool{}

	// entry phi values
	k := -1
	for i, p := range lp.header.Preds {
		if p == from {
			k = i
		}
	}
	var phis []*ssa.Phi
	for _, in := range lp.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entryPhi := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		entryPhi[p] = x.val(fr, st0, p.Edges[k])
	}
	var cands []*Term
	candsInit := false
	repOf := map[*Term]*Term{} // log cell -> head value (entry ++ rep)
	var lc *LoopCtx
	phiSym := map[*ssa.Phi]*Term{}
	cellSym := map[*Term]*Term{}
	for _, p := range phis {
		phiSym[p] = FreshT("φ"+p.Comment, p.Type())
	}
	fixedPhi := map[*ssa.Phi]bool{}
	varies := map[*ssa.Phi]bool{}

	if x.eagerCells != nil {
		for _, p := range phis {
			if a, t := x.eagerCells(p, phiSym[p]); a != nil {
				modified[a] = t
			}
		}
	}

	x.mute++
	muted := true
	defer func() {
		if muted {
			x.mute--
		}
	}()

	for iter := 0; ; iter++ {
		if iter > 60 {
			x.Ob(fname(x.top), "loop", fmt.Sprintf("loop %d of %s", lp.ord, fname(fr.fn)), false, "no stable invariant found", lp.header.Instrs[0].Pos())
			return nil
		}
		head := st0.clone()
		lc = &LoopCtx{fr: fr, lp: lp, entry: map[*Term]*Term{}, desc: map[*Term]string{}, cellOf: map[*Term]*Term{}, phiOf: map[*Term]*ssa.Phi{}, st0: st0}
		for _, p := range phis {
			s := phiSym[p]
			head.env[p] = s
			lc.vars = append(lc.vars, s)
			lc.entry[s] = entryPhi[p]
			lc.desc[s] = p.Comment
			lc.phiOf[s] = p
		}
		for _, a := range sortedTypes(modified) {
			t := modified[a]
			if logCells[a] {
				if v, ok := repOf[a]; ok {
					head.mem[a] = v
				} else {
					s := cellSym[a]
					if s == nil {
						s = Fresh("log", SStr, nil)
						cellSym[a] = s
					}
					head.mem[a] = s
				}
				continue
			}
			s := cellSym[a]
			if s == nil {
				if t == nil {
					// ghost cell: take the sort of its current value
					v := st0.mem[a]
					if v == nil && a.S == "ghost.buf" {
						v = Str("")
					}
					if v == nil {
						v = Fresh("cell", SRef, nil)
					}
					s = Fresh("@"+a.String(), v.Sort, v.T)
				} else {
					s = FreshT("@"+a.String(), t)
				}
				cellSym[a] = s
			}
			head.mem[a] = s
			lc.vars = append(lc.vars, s)
			ev := st0.mem[a]
			// a cell of an object that a loop variable refers to: that of the entry object
			if a0 := Subst(a, entrySub(lc)); a0 != a && t != nil {
				ev = x.load(st0.clone(), a0, t)
			}
			if ev == nil {
				if t != nil {
					ev = x.load(st0.clone(), a, t)
				} else if a.Op == "uf" && a.S == "ghost.buf" {
					ev = Str("")
				} else {
					ev = Fresh("cell0", s.Sort, nil)
				}
			}
			lc.entry[s] = ev
			lc.desc[s] = a.String()
			lc.cellOf[s] = a
		}
		// candidates
		if !candsInit {
			cands = nil
			for _, c := range x.candidates(lc) {
				e := Subst(c, lc.entry)
				if x.Prove(st0, e) {
					cands = append(cands, c)
				}
			}
			candsInit = true
		}
		for _, c := range cands {
			head.assume(c)
		}
		headLen := len(head.pc)
		headMem := head.clone().mem
		headSnap := head.clone()
		exits := x.region(fr, head.clone(), lp.header, nil, lp)
		var backs []Exit
		for _, e := range exits {
			if e.kind == exEdge && e.to == lp.header {
				backs = append(backs, e)
			}
		}
		// modified cells
		changed := false
		for _, e := range backs {
			for _, a := range sortedMem(e.st.mem) {
				v := e.st.mem[a]
				if headMem[a] == v {
					continue
				}
				r := root(a)
				if r.Op == "uf" && len(r.A) > 0 {
					r = root(r.A[0]) // ghost cells are keyed by their object
				}
				if r.Op == "alloc" && r.I > watermark {
					continue // object allocated inside the body
				}
				if _, ok := modified[a]; ok {
					continue
				}
				if _, inHead := headMem[a]; !inHead {
					// never written before the loop: initial value is the implicit one
					if a.Op == "uf" {
						// map versions, ghost cells
						modified[a] = nil
						if x.isLog != nil && x.isLog(a) {
							logCells[a] = true
						}
						changed = true
						continue
					}
				}
				var t types.Type
				if a.Op != "uf" && a.T != nil {
					if pt, ok := a.T.Underlying().(*types.Pointer); ok {
						t = pt.Elem()
					}
				} else if a.Op == "alloc" {
					t = a.T
				}
				if a.Op == "alloc" {
					t = a.T
				}
				modified[a] = t
				if x.isLog != nil && x.isLog(a) {
					logCells[a] = true
				}
				changed = true
			}
		}
		if changed {
			candsInit = false
			repOf = map[*Term]*Term{}
			continue
		}
		// phis that keep their entry value on every path need no havoc
		for _, p := range phis {
			same := true
			for _, e := range backs {
				if v := x.backVal(fr, e, p, lp); v != phiSym[p] && v != entryPhi[p] {
					same = false
				}
			}
			if fixedPhi[p] {
				if !same { // it changes on a path that stronger candidates excluded
					fixedPhi[p], varies[p] = false, true
					phiSym[p] = FreshT("φ"+p.Comment, p.Type())
					changed = true
				}
				continue
			}
			if same && !varies[p] && phiSym[p] != entryPhi[p] {
				fixedPhi[p] = true
				phiSym[p] = entryPhi[p]
				changed = true
			}
		}
		if changed {
			candsInit = false
			repOf = map[*Term]*Term{}
			continue
		}
		// Houdini: drop candidates not preserved
		var kept []*Term
		for _, c := range cands {
			ok := true
			for _, e := range backs {
				m := map[*Term]*Term{}
				for s, p := range lc.phiOf {
					if s.Op == "sym" && s != lc.entry[s] {
						m[s] = x.backVal(fr, e, p, lp)
					}
				}
				cells := map[*Term]*Term{}
				for s, a := range lc.cellOf {
					v := e.st.mem[a]
					if a1 := Subst(a, m); a1 != a && modified[a] != nil { // of the object that the variable refers to next
						v = x.load(e.st.clone(), a1, modified[a])
					}
					if v == nil {
						v = s
					}
					cells[s] = v
				}
				for s, v := range cells {
					m[s] = v
				}
				if !x.Prove(e.st, Subst(c, m)) {
					ok = false
					break
				}
			}
			if ok {
				kept = append(kept, c)
			}
		}
		if len(kept) != len(cands) {
			cands = kept
			repOf = map[*Term]*Term{} // computed under stronger assumptions: redo
			continue
		}
		// logs
		logFail := ""
		for a := range logCells {
			if _, ok := repOf[a]; ok {
				continue
			}
			iv := x.findIvar(fr, lc, backs, lp, phiSym, entryPhi)
			if iv == nil {
				logFail = "no induction variable for log " + a.String()
				break
			}
			bound := Fresh("k", SInt, nil) // the iteration variable, renamed apart
			ren := map[*Term]*Term{iv: bound}
			info := &RepInfo{ivar: bound, lo: lc.entry[iv]}
			X := cellSym[a]
			for _, e := range backs {
				v := e.st.mem[a]
				var d *Term
				if v == X {
					d = Str("")
				} else if v.Op == "scat" && v.A[0] == X {
					d = SCat(v.A[1:]...)
				} else {
					logFail = "log is not append-only: " + v.String()
					break
				}
				bad := false
				for _, s := range lc.vars {
					if s != iv && s.Op == "sym" && d.contains(s) {
						bad = true
					}
				}
				if bad {
					logFail = "appended value depends on other loop variables: " + d.String()
					break
				}
				var conds []*Term
				for _, c := range e.st.pc[min(headLen, len(e.st.pc)):] {
					dep := false
					for _, s := range lc.vars {
						if s != iv && s.Op == "sym" && c.contains(s) {
							dep = true
						}
					}
					if !dep {
						conds = append(conds, c)
					}
				}
				for i := range conds {
					conds[i] = Subst(conds[i], ren)
				}
				info.alts = append(info.alts, RepAlt{conds, Subst(d, ren)})
			}
			if logFail != "" {
				break
			}
			repSeq++
			id := fmt.Sprintf("rep%d", repSeq)
			reps[id] = info
			ev := st0.mem[a]
			if ev == nil {
				ev = Str("")
			}
			repOf[a] = SCat(ev, mk("rep", SStr, id, 0, nil, info.lo, iv))
			changed = true
		}
		if logFail != "" {
			x.mute--
			muted = false
			x.Ob(fname(x.top), "loop-log", fmt.Sprintf("loop %d of %s", lp.ord, fname(fr.fn)), false, logFail, lp.header.Instrs[0].Pos())
			return nil
		}
		if changed {
			continue
		}
		// stable: final recorded run
		x.mute--
		muted = false
		if x.mute == 0 {
			x.Ob(fname(x.top), "loop-invariant", fmt.Sprintf("loop %d of %s (%d invariants, %d paths)", lp.ord, fname(fr.fn), len(cands), len(backs)), true, "", lp.header.Instrs[0].Pos())
		}
		if x.onLoop != nil {
			x.onLoop(x, fr, lc, headSnap, backs)
		}
		if x.mute == 0 {
			exits = x.region(fr, headSnap.clone(), lp.header, nil, lp)
		}
		var out []Exit
		for _, e := range exits {
			if e.kind == exEdge && e.to == lp.header {
				continue
			}
			out = append(out, e)
		}
		return out
	}
}

// entrySub: the loop variables' values at entry.
func entrySub(lc *LoopCtx) map[*Term]*Term {
	m := map[*Term]*Term{}
	for s := range lc.phiOf {
		if s.Op == "sym" && lc.entry[s] != nil && lc.entry[s] != s {
			m[s] = lc.entry[s]
		}
	}
	return m
}

func sortedTypes(m map[*Term]types.Type) []*Term {
	mm := map[*Term]*Term{}
	for k := range m {
		mm[k] = k
	}
	return sortedMem(mm)
}

func (x *Exec) backVal(fr *Frame, e Exit, p *ssa.Phi, lp *Loop) *Term {
	for i, q := range lp.header.Preds {
		if q == e.from {
			return x.val(fr, e.st, p.Edges[i])
		}
	}
	return nil
}

func (x *Exec) findIvar(fr *Frame, lc *LoopCtx, backs []Exit, lp *Loop, phiSym map[*ssa.Phi]*Term, entry map[*ssa.Phi]*Term) *Term {
	for s, p := range lc.phiOf {
		if s.Sort != SInt || s.Op != "sym" || s == lc.entry[s] {
			continue
		}
		ok := true
		for _, e := range backs {
			if x.backVal(fr, e, p, lp) != Add(s, One) {
				ok = false
			}
		}
		if ok {
			return s
		}
	}
	return nil
}

// candidates: generic templates, then contract-specific ones.
func (x *Exec) candidates(lc *LoopCtx) []*Term {
	var out []*Term
	add := func(c *Term) {
		if c != True && c != False {
			out = append(out, c)
		}
	}
	type iv struct{ cur, ent *Term }
	var ints []iv
	for _, s := range lc.vars {
		if s.Op != "sym" || s == lc.entry[s] {
			continue
		}
		e := lc.entry[s]
		switch s.Sort {
		case SInt:
			ints = append(ints, iv{s, e})
			add(Le(e, s))
			add(Le(s, e))
			add(Le(Zero, s))
		case SSeq:
			ints = append(ints, iv{Len(s), Len(e)})
			add(Le(Len(e), Len(s)))
		case SBool:
			add(Eq(s, e))
			add(s)
			add(Not(s))
		case SRef:
			add(Eq(s, e))
			add(Not(Eq(s, Nil)))
			add(Eq(s, Nil))
		case SStr:
			add(Eq(s, e))
		}
	}
	for i := range ints {
		for j := i + 1; j < len(ints); j++ {
			d := Sub(Sub(ints[i].cur, ints[j].cur), Sub(ints[i].ent, ints[j].ent))
			add(Eq(d, Zero))
		}
	}
	for i, s := range lc.vars {
		for _, t := range lc.vars[i+1:] {
			if s.Sort == SRef && t.Sort == SRef && s.Op == "sym" && t.Op == "sym" {
				add(Eq(s, t))
			}
		}
	}
	// header comparison i+1 < N / i < N  gives  i+1 <= N / i <= N
	if len(lc.lp.header.Instrs) > 0 {
		for _, in := range lc.lp.header.Instrs {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op.String() != "<" {
				continue
			}
			env := map[ssa.Value]*Term{}
			for s, p := range lc.phiOf {
				env[p] = s
			}
			var ev func(v ssa.Value) *Term
			ev = func(v ssa.Value) *Term {
				if t, ok := env[v]; ok {
					return t
				}
				if add, ok := v.(*ssa.BinOp); ok && add.Op.String() == "+" {
					if t, ok := env[add.X]; ok {
						if c, ok := add.Y.(*ssa.Const); ok {
							return Add(t, constTerm(c))
						}
					}
				}
				if t, ok := lc.st0.env[v]; ok {
					return t
				}
				if c, ok := v.(*ssa.Const); ok {
					return constTerm(c)
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "*" {
					if a := ev(u.X); a != nil {
						return x.load(lc.st0.clone(), a, u.Type())
					}
				}
				if fa, ok := v.(*ssa.FieldAddr); ok {
					if a := ev(fa.X); a != nil {
						return fieldAddr(a, fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
					}
				}
				if c, ok := v.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if t := ev(c.Call.Args[0]); t != nil {
							return Len(t)
						}
					}
				}
				return nil
			}
			l, r := ev(b.X), ev(b.Y)
			if l != nil && r != nil && l.Sort == SInt {
				add(Le(l, r))
			}
		}
	}
	if x.loopCands != nil {
		out = append(out, x.loopCands(x, lc)...)
	}
	seen := map[*Term]bool{}
	var u []*Term
	for _, c := range out {
		if !seen[c] {
			seen[c] = true
			u = append(u, c)
		}
	}
	return u
}
