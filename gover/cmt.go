package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: the comments that the parser collects.
//
// ccnt(i) is the number of comments among the first i tokens of the text. A position is a
// boundary if it is 0 or the number of tokens, or if the token before it or at it is significant:
// a run of white space and comments is never entered in the middle. H is the highest position
// the reader has had. The map of comments holds, at any time, exactly the comments before H, each
// in one group, keyed by the position of its first comment; a group never spans a significant
// token, so that the first comment of every run is the first of its group.
//
// nextTokenWithParseComment is the only function that adds to the map. At a position that is H it
// is proved to add groups whose comments are exactly those that it passes, in order; before H (the
// run has been read before) it is proved to add nothing. What it finds in the map is, by the
// above: nothing at the position of a comment at or behind H, and a group at the position of the
// first comment of a run before H. Every other function that reads or moves the position is
// proved to leave it at a boundary not behind H.

func init() {
	extraJobs["CREAD"] = (*parseModel).checkCommentReaders
	extraJobs["CSQL"] = (*parseModel).checkCommentEnd
	extraJobs["CFILE"] = (*parseModel).checkCommentFile
	extraJobs["CFRAME"] = (*parseModel).checkCommentFrame
	checks["C13"] = func(P *Program, rep *Report) {
		decideJobs(rep, func(drop []string) []Job {
			jobs := []Job{{Name: "CREAD", Drop: drop}, {Name: "CFILE", Drop: drop}, {Name: "CSQL", Drop: drop}, {Name: "CFRAME", Drop: drop}, {Name: "NEW", Drop: drop}, {Name: "ALIAS", Drop: drop}}
			for _, j := range parserJobs(P, "C13", drop) {
				if strings.HasPrefix(j.Name, "L1/") {
					jobs = append(jobs, j)
				}
			}
			return jobs
		}, func(string) string { return "" })
	}
}

var (
	storedCell = UF("ghost.stored", SRef)
	highCell   = UF("ghost.H", SRef)
	readAll    = UF("⊢E", SBool)
)

func ccnt(i *Term) *Term  { return UF("ccnt", SInt, i) }
func sigAt(i *Term) *Term { return UF("sigat", SBool, i) }

func (m *parseModel) boundary(i *Term) *Term {
	return Or(Eq(i, Zero), Eq(i, Len(m.toks)), sigAt(i), sigAt(Sub(i, One)))
}

// cmFacts: what ccnt and sigat are at the i-th token.
func (m *parseModel) cmFacts(st *State, i *Term, k *Term) {
	com := Eq(k, m.kinds["Comment"])
	sig := And(Not(Eq(k, m.kinds["Whitespace"])), Not(com))
	c, c1 := ccnt(i), ccnt(Add(i, One))
	st.assume(Le(Zero, c))
	st.assume(Implies(com, Eq(c1, Add(c, One))))
	st.assume(Or(com, Eq(c1, c)))
	st.assume(Implies(sig, sigAt(i)))
	st.assume(Or(sig, Not(sigAt(i))))
}

func isGroupT(t types.Type) bool    { return t != nil && tstr(t) == "*sqlast.CommentGroup" }
func isGroupsT(t types.Type) bool   { return t != nil && tstr(t) == "[]*sqlast.CommentGroup" }
func isCommentsT(t types.Type) bool { return t != nil && tstr(t) == "[]*sqlast.Comment" }

// ⊢M(l,n): the elements of l are nodes for the comments number n-len(l) .. n-1 of the text.
// ⊢G(q,a,b): the comments of the groups of q are number a .. b-1 of the text.
// ⊢F(q): the groups of q are not empty.
// ⊢S(s,q,n): s are the first n groups of q, without empty ones.
// ⊢O(g): g is a group that has not been handed on.
func cM(l, n *Term) *Term    { return UF("⊢M", SBool, l, n) }
func cG(q, a, b *Term) *Term { return UF("⊢G", SBool, q, a, b) }
func cF(q *Term) *Term       { return UF("⊢F", SBool, q) }
func cS(s, q, n *Term) *Term { return UF("⊢S", SBool, s, q, n) }
func cO(g *Term) *Term       { return UF("⊢O", SBool, g) }

func sealed(g *Term) *Term { return UF("sealed", SBool, g) }

// lst: the comments of a group that has been handed on (they do not change any more).
func (m *parseModel) lst(g *Term) *Term {
	return mk("uf", SSeq, "lst", 0, types.NewSlice(types.NewPointer(m.P.pkgs["sqlast"].Type("Comment").Type())), g)
}

func (m *parseModel) groupT() types.Type   { return m.P.pkgs["sqlast"].Type("CommentGroup").Type() }
func (m *parseModel) commentT() types.Type { return m.P.pkgs["sqlast"].Type("Comment").Type() }

func (m *parseModel) open(st *State, g *Term) bool {
	if st.pcs[sealed(g)] {
		return false
	}
	return g.Op == "alloc" || st.pcs[cO(g)]
}

// seal: the group is handed on.
func (m *parseModel) seal(fr *Frame, st *State, g *Term, ci *CallInfo) {
	var pos = fr.fn.Pos()
	if ci != nil {
		pos = ci.instrPos()
	}
	m.x.Ob(fname(m.x.top), "comments", "a group of comments is handed on once, in "+fname(fr.fn), m.open(st, g), g.String()+pathStr(st)+ghStr(st), pos)
	l := m.field(st, g, m.groupT(), "List")
	st.assume(sealed(g))
	st.pcs[Eq(m.lst(g), l)] = true
	st.pc = append(st.pc, mk("eq", SBool, "", 0, nil, m.lst(g), l))
	st.assume(Eq(Len(m.lst(g)), Len(l)))
}

// listOf: the comments of a group handed on.
func (m *parseModel) listOf(st *State, g *Term) *Term {
	l := m.lst(g)
	for _, c := range st.pc {
		if c.Op == "eq" && c.A[0] == l {
			return c.A[1]
		}
	}
	return nil
}

// samePos: two struct values are equal, field by field.
func (m *parseModel) same(st *State, a, b *Term, t types.Type) bool {
	if a == b {
		return true
	}
	s, ok := structOf(t)
	if !ok {
		return m.x.Prove(st, Eq(a, b))
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if !m.same(st, Sel(a, i, sortOf(ft), ft), Sel(b, i, sortOf(ft), ft), ft) {
			return false
		}
	}
	return true
}

// rawTokens: the tokens of the text that t mentions.
func (m *parseModel) rawTokens(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	t.walk(seen, func(u *Term) {
		if u.Op == "at" && u.A[0] == m.toks {
			out = append(out, u)
		}
	})
	sortTerms(out)
	return out
}

func fieldType(T types.Type, name string) types.Type {
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// commentNode: e is a node for comment number n of the text.
func (m *parseModel) commentNode(st *State, e, n *Term) bool {
	cT := m.commentT()
	posT := fieldType(cT, "From")
	from := m.field(st, e, cT, "From")
	for _, tk := range m.rawTokens(from) {
		i := tk.A[1]
		if m.x.Prove(st, And(Eq(m.kind(st, tk), m.kinds["Comment"]), Eq(ccnt(i), n), Le(Zero, i), Lt(i, Len(m.toks)))) &&
			m.same(st, from, m.field(st, tk, m.tokT, "From"), posT) &&
			m.same(st, m.field(st, e, cT, "To"), m.field(st, tk, m.tokT, "To"), posT) &&
			m.x.Prove(st, Eq(m.field(st, e, cT, "Text"), m.strVal(st, tk))) {
			return true
		}
	}
	return false
}

func (m *parseModel) proveCmt(st *State, g *Term) bool {
	if st.pcs[g] {
		return true
	}
	x := m.x
	for _, f := range m.preds(st, g.S) {
		if f.A[0] != g.A[0] {
			continue
		}
		ok := true
		for i := range f.A {
			ok = ok && (f.A[i] == g.A[i] || f.A[i].Sort == SInt && x.Prove(st, Eq(f.A[i], g.A[i])))
		}
		if ok {
			return true
		}
	}
	switch g.S {
	case "⊢O":
		return m.open(st, g.A[0])
	case "⊢M":
		l, n := g.A[0], g.A[1]
		if isEmptySeq(l) || x.Prove(st, Eq(Len(l), Zero)) {
			return true
		}
		if e, rest := splitLast(l); e != nil {
			return m.commentNode(st, e, Sub(n, One)) && m.proveCmt(st, cM(rest, Sub(n, One)))
		}
	case "⊢G":
		q, a, b := g.A[0], g.A[1], g.A[2]
		if (isEmptySeq(q) || x.Prove(st, Eq(Len(q), Zero))) && x.Prove(st, Eq(a, b)) {
			return true
		}
		if e, rest := splitLast(q); e != nil {
			l := m.listOf(st, e)
			return l != nil && m.proveCmt(st, cM(l, b)) && m.proveCmt(st, cG(rest, a, Sub(b, Len(l))))
		}
	case "⊢F":
		return m.full(st, g.A[0])
	case "⊢S":
		s, q, n := g.A[0], g.A[1], g.A[2]
		if (isEmptySeq(s) || x.Prove(st, Eq(Len(s), Zero))) && x.Prove(st, Eq(n, Zero)) {
			return true
		}
		if e, rest := splitLast(s); e != nil {
			gt := types.NewPointer(m.groupT())
			if n1 := Sub(n, One); x.Prove(st, Eq(e, At(q, n1, SRef, gt))) {
				return m.proveCmt(st, cS(rest, q, n1))
			}
		}
		for _, f := range m.preds(st, "⊢S") { // an empty group
			if n1 := Sub(n, One); f.A[0] == s && f.A[1] == q && x.Prove(st, Eq(f.A[2], n1)) {
				return x.Prove(st, Eq(Len(m.lst(At(q, n1, SRef, types.NewPointer(m.groupT())))), Zero))
			}
		}
	}
	return false
}

// full: every group of q has a comment.
func (m *parseModel) full(st *State, q *Term) bool {
	if isEmptySeq(q) {
		return true
	}
	for _, f := range m.preds(st, "⊢F") {
		if f.A[0] == q {
			return true
		}
	}
	e, rest := splitLast(q)
	return e != nil && m.x.Prove(st, And(sealed(e), Le(One, Len(m.lst(e))))) && m.full(st, rest)
}

// cmtGroupFacts: facts about the comments of a group that is in a list.
func (m *parseModel) cmtGroupFacts(st *State, g *Term) {
	if g.Op == "at" && m.full(st, g.A[0]) && m.x.Prove(st, And(Le(Zero, g.A[1]), Lt(g.A[1], Len(g.A[0])))) {
		st.assume(Le(One, Len(m.lst(g))))
		st.assume(Not(Eq(g, Nil)))
	}
}

// commentExec prepares the verification of a reader function in comment mode.
func (m *parseModel) commentExec(f *ssa.Function) (*Exec, *State) {
	x, st := m.setup(f, 1)
	m.rawHook = m.cmFacts
	pa, pT := fieldOf(m.p, m.pT, "parseComment")
	st.assume(x.load(st, pa, pT))
	ca, cT := fieldOf(m.p, m.pT, "comments")
	cmap := x.load(st, ca, cT)
	ix0 := st.mem[m.idxA]
	st.mem[storedCell] = NilSeq
	h0 := Sym("H0", SInt, nil)
	st.mem[highCell] = h0
	st.assume(Le(ix0, h0))
	st.assume(Le(h0, Len(m.toks)))
	st.assume(m.boundary(ix0))
	x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
		if addr.Op == "addr.f" && addr.S == "sqlast.CommentGroup.List" {
			if g := addr.A[0]; g.Op == "at" {
				m.cmtGroupFacts(st, g)
				return m.lst(g)
			}
		}
		return m.loadHook(x, st, addr, t)
	}
	x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
		fn := fname(x.top)
		switch {
		case addr.Op == "addr.i" && addr.S == "map" && addr.A[0] == cmap:
			if !st.pcs[sealed(val)] && val.Op != "at" {
				m.seal(fr, st, val, nil)
			}
			l := m.field(st, val, m.groupT(), "List")
			if val.Op == "at" {
				l = m.lst(val)
			}
			first := At(l, Zero, SRef, types.NewPointer(m.commentT()))
			ok := x.Prove(st, Le(One, Len(l))) && m.same(st, addr.A[1], m.field(st, first, m.commentT(), "From"), fieldType(m.commentT(), "From"))
			x.Ob(fn, "comments", "a group is stored in the map at the position of its first comment", ok, addr.A[1].String()+" is not that of "+l.String()+pathStr(st)+ghStr(st), pos)
			s := st.mem[storedCell]
			st.mem[storedCell] = Snoc(s, val)
		case addr.Op == "addr.f" && strings.HasPrefix(addr.S, "sqlast.CommentGroup."):
			x.Ob(fn, "comments", "a group of comments that has been handed on does not change", m.open(st, addr.A[0]), addr.String()+pathStr(st)+ghStr(st), pos)
		case strings.Contains(addr.String(), "sqlast.Comment.") && !isFreshRoot(addr):
			x.Ob(fn, "comments", "a comment that has been handed on does not change", false, addr.String(), pos)
		case addr.Op == "addr.f" && strings.HasPrefix(addr.S, parserPkg+".Parser.") && addr != m.idxA:
			x.Ob(fn, "comments", "the parser's tokens, mode and map of comments stay", false, addr.String(), pos)
		}
	}
	x.eagerCells = func(p *ssa.Phi, s *Term) (*Term, types.Type) {
		if isGroupT(p.Type()) {
			return fieldOf(s, m.groupT(), "List")
		}
		return nil, nil
	}
	x.loopCands = func(x *Exec, lc *LoopCtx) []*Term { return append(m.cands(x, lc), m.commentCands(lc)...) }
	x.onLoop = func(x *Exec, fr *Frame, lc *LoopCtx, head *State, backs []Exit) {
		ok := true
		why := ""
		for _, e := range backs {
			for _, c := range e.st.pc {
				if c.Op != "uf" || c.S != "sealed" || head.pcs[c] {
					continue
				}
				g := c.A[0]
				if _, phi := lc.phiOf[g]; phi {
					continue
				}
				if g.Op == "alloc" {
					old := false
					for a := range head.mem {
						old = old || root(a) == g
					}
					if !old {
						continue
					}
				}
				ok, why = false, g.String()
			}
		}
		x.Ob(fname(x.top), "comments", "a loop of "+fname(fr.fn)+" hands on groups of its own", ok, why, lc.lp.header.Instrs[0].Pos())
	}
	base := x.model
	x.model = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && ci.method == "" && len(ci.args) > 0 && ci.args[0] == m.p {
			if n, ok := m.isL1(ci.fn); ok {
				if n == "nextTokenWithParseComment" {
					return m.applyComment(fr, st, ci), true
				}
				return nil, false // inlined
			}
		}
		if ci.name == "builtin.append" && ci.sig != nil && ci.sig.Params().Len() > 0 {
			if sl, ok := ci.sig.Params().At(0).Type().Underlying().(*types.Slice); ok && isGroupT(sl.Elem()) {
				if b := ci.args[1]; b.Op == "seq" {
					for _, g := range b.A {
						m.seal(fr, st, g, ci)
					}
				} else {
					x.Ob(fname(x.top), "comments", "groups are handed on one by one", false, b.String(), ci.instrPos())
				}
			}
		}
		return base(x, fr, st, ci)
	}
	return x, st
}

func (m *parseModel) commentCands(lc *LoopCtx) []*Term {
	var guards, base, lists, groups []*Term
	var ix, high, stored *Term
	ints := []*Term{}
	for s, a := range lc.cellOf {
		switch a {
		case m.idxA:
			ix = s
		case highCell:
			high = s
		case storedCell:
			stored = s
		}
	}
	cix := ccnt(lc.st0.mem[m.idxA])
	if ix != nil {
		cix = ccnt(ix)
	}
	for _, s := range lc.vars {
		if s.Op != "sym" || s == lc.entry[s] || s == ix || s == high || s == stored {
			continue
		}
		switch {
		case s.Sort == SBool:
			guards = append(guards, s, Not(s))
		case isGroupT(s.T):
			base = append(base, cO(s))
		case s.Sort == SSeq && isCommentsT(s.T):
			lists = append(lists, s)
		case s.Sort == SSeq && isGroupsT(s.T):
			groups = append(groups, s)
		case s.Sort == SInt:
			ints = append(ints, s)
		}
	}
	c0 := ccnt(m.ix0)
	base = append(base, Eq(cix, c0))
	for _, l := range lists {
		base = append(base, cM(l, cix), Eq(Len(l), Zero))
	}
	for _, q := range groups {
		base = append(base, Eq(Len(q), Zero), cF(q), cG(q, c0, cix))
		for _, l := range lists {
			base = append(base, cG(q, c0, Sub(cix, Len(l))))
		}
	}
	if ix != nil {
		base = append(base, m.boundary(ix), Le(m.ix0, ix), Le(ix, m.ix0))
		h := lc.st0.mem[highCell]
		if high != nil {
			h = high
			base = append(base, Le(lc.entry[high], high), Le(high, Len(m.toks)))
		}
		base = append(base, Le(ix, h))
	}
	if stored != nil {
		seen := map[*Term]bool{}
		var qs []*Term
		for v, t := range lc.st0.env {
			if isGroupsT(v.Type()) && t.Sort == SSeq && !seen[t] {
				seen[t] = true
				qs = append(qs, t)
			}
		}
		sortTerms(qs)
		for _, q := range qs {
			for _, i := range ints {
				base = append(base, cS(stored, q, i), cS(stored, q, Add(i, One)), And(Le(Zero, Add(i, One)), Le(Add(i, One), Len(q))))
			}
		}
		base = append(base, Eq(Len(stored), Zero))
	}
	out := append([]*Term{}, base...)
	for _, g := range guards {
		for _, b := range base {
			out = append(out, Or(g, b))
		}
	}
	return out
}

// applyComment: the contract of nextTokenWithParseComment, for its callers.
func (m *parseModel) applyComment(fr *Frame, st *State, ci *CallInfo) []Outcome {
	x := m.x
	ix, h := st.mem[m.idxA], st.mem[highCell]
	m.used["nextTokenWithParseComment"] = true
	x.Ob(fname(x.top), "comments", "comments are read from a boundary on, in "+fname(fr.fn), x.Prove(st, And(m.boundary(ix), Le(ix, h))), ix.String()+pathStr(st), ci.instrPos())
	tT := types.NewPointer(m.tokT)
	var outs []Outcome
	for i := 0; i < 2; i++ {
		s := st.clone()
		n, h1 := Fresh("ix", SInt, m.idxT), Fresh("H", SInt, nil)
		s.assume(Le(ix, n))
		s.assume(Le(n, Len(m.toks)))
		s.assume(Le(h, h1))
		s.assume(Le(n, h1))
		s.assume(Le(h1, Len(m.toks)))
		s.mem[m.idxA], s.mem[highCell] = n, h1
		if i == 0 {
			s.assume(Lt(ix, n))
			m.tokFacts(s, Sub(n, One))
			s.assume(sigAt(Sub(n, One)))
			s.assume(Eq(UF("cnt", SInt, n), Add(UF("cnt", SInt, ix), One)))
			outs = append(outs, Outcome{st: s, vals: []*Term{At(m.toks, Sub(n, One), SRef, tT), Nil}})
			continue
		}
		s.assume(Eq(n, Len(m.toks)))
		outs = append(outs, Outcome{st: s, vals: []*Term{m.eofTok, m.eofErr}})
	}
	return outs
}

func (m *parseModel) checkCommentReaders() {
	for _, n := range l1order {
		f := m.P.funcs[pname(n)]
		if f == nil {
			continue
		}
		if _, ok := m.isL1(f); !ok {
			continue
		}
		if n == "nextTokenWithParseComment" {
			m.commentReader(f, true)
			m.commentReader(f, false)
			continue
		}
		m.commentUser(f)
	}
}

func (m *parseModel) commentUser(f *ssa.Function) {
	x, st := m.commentExec(f)
	m.ix0 = st.mem[m.idxA]
	args := []*Term{m.p}
	for i, p := range f.Params {
		if i > 0 {
			args = append(args, Sym("arg."+p.Name(), sortOf(p.Type()), p.Type()))
		}
	}
	if f.Name() == "prevToken" {
		st.assume(Lt(Zero, m.c0))
	}
	fn := fname(f)
	n := 0
	for _, e := range x.Run(f, args, nil, st, nil) {
		if e.kind == exPanic || !x.feasible(e.st, True) {
			continue
		}
		n++
		ix := e.st.mem[m.idxA]
		ok := x.Prove(e.st, And(m.boundary(ix), Le(Zero, ix), Le(ix, e.st.mem[highCell])))
		x.Ob(fn, "comments", f.Name()+" leaves the reader at a boundary between a significant token and a run of comments", ok, "index "+ix.String()+pathStr(e.st)+ghStr(e.st), f.Pos())
		x.Ob(fn, "comments", f.Name()+" leaves the map of comments to nextTokenWithParseComment", isEmptySeq(e.st.mem[storedCell]), e.st.mem[storedCell].String(), f.Pos())
	}
	x.Ob(fn, "comments", f.Name()+" has a path", n > 0, "", f.Pos())
	m.rep.done(x, f)
}

// commentReader verifies nextTokenWithParseComment, at H (first) or before it.
func (m *parseModel) commentReader(f *ssa.Function, first bool) {
	x, st := m.commentExec(f)
	m.ix0 = st.mem[m.idxA]
	h0 := st.mem[highCell]
	what := "a run of comments that has been read before"
	if first {
		st.assume(Eq(m.ix0, h0))
		what = "a run of comments read for the first time"
	} else {
		st.assume(Lt(m.ix0, h0))
	}
	ca, cT := fieldOf(m.p, m.pT, "comments")
	cmap := x.load(st, ca, cT)
	posT := fieldType(m.tokT, "From")
	x.onLookup = func(st *State, mp, k, v, ok *Term) {
		if mp != cmap || !isEmptySeq(st.mem[storedCell]) {
			return
		}
		for _, tk := range m.rawTokens(k) {
			if !m.same(st, k, m.field(st, tk, m.tokT, "From"), posT) {
				continue
			}
			i := tk.A[1]
			m.tokFacts(st, i)
			com := Eq(m.kind(st, tk), m.kinds["Comment"])
			in := And(com, Le(m.ix0, i), Lt(i, Len(m.toks)))
			if first {
				st.assume(Implies(in, Not(ok)))
			} else {
				st.assume(Implies(And(in, Eq(ccnt(i), ccnt(m.ix0)), Eq(UF("cnt", SInt, i), UF("cnt", SInt, m.ix0))), ok))
			}
			return
		}
	}
	fn := fname(f)
	n := 0
	for _, e := range x.Run(f, []*Term{m.p}, nil, st, nil) {
		if e.kind == exPanic || !x.feasible(e.st, True) {
			continue
		}
		n++
		ix := e.st.mem[m.idxA]
		s := e.st.mem[storedCell]
		ok := x.Prove(e.st, And(m.boundary(ix), Le(m.ix0, ix), Le(ix, Len(m.toks))))
		x.Ob(fn, "comments", what+": the reader stops behind a significant token or at the end", ok, "index "+ix.String()+pathStr(e.st)+ghStr(e.st), f.Pos())
		if !first {
			x.Ob(fn, "comments", what+": nothing is added to the map", isEmptySeq(s) || x.Prove(e.st, Eq(Len(s), Zero)), "added: "+s.String()+pathStr(e.st)+ghStr(e.st), f.Pos())
			continue
		}
		a, b := ccnt(m.ix0), ccnt(ix)
		ok = m.proveCmt(e.st, cG(s, a, b))
		for _, g := range m.preds(e.st, "⊢S") {
			if ok {
				break
			}
			ok = m.proveCmt(e.st, cS(s, g.A[1], Len(g.A[1]))) && m.proveCmt(e.st, cG(g.A[1], a, b))
		}
		if !ok { // nothing was handed on one by one
			for _, g := range m.preds(e.st, "⊢G") {
				ok = ok || m.proveCmt(e.st, cS(s, g.A[0], Len(g.A[0]))) && m.proveCmt(e.st, cG(g.A[0], a, b))
			}
		}
		x.Ob(fn, "comments", what+": groups of exactly the comments passed, in order, are added to the map", ok, "added: "+s.String()+pathStr(e.st)+ghStr(e.st), f.Pos())
	}
	x.Ob(fn, "comments", what+": there is a path", n > 0, "", f.Pos())
	m.rep.done(x, f)
}

// checkCommentEnd: when ParseSQL succeeds in comment mode, the reader has seen the end of the text.
func (m *parseModel) checkCommentEnd() {
	f := m.P.funcs[pname("ParseSQL")]
	if f == nil {
		m.rep.obs = append(m.rep.obs, &Obligation{Fn: pname("ParseSQL"), Kind: "verifier", Detail: "ParseSQL exists", Why: "missing"})
		return
	}
	x, st := m.entry(f)
	pa, pT := fieldOf(m.p, m.pT, "parseComment")
	st.assume(x.load(st, pa, pT))
	fn := fname(f)
	n := 0
	for _, e := range x.Run(f, []*Term{m.p}, nil, st, nil) {
		if e.kind == exPanic || !x.feasible(e.st, True) {
			continue
		}
		for _, s := range m.splitErr(e.st, e.vals[1]) {
			if !x.Prove(s, Eq(e.vals[1], Nil)) {
				continue
			}
			n++
			x.Ob(fn, "comments", "when ParseSQL succeeds with comment collection, it has read up to the end of the text", s.pcs[readAll], pathStr(s)+ghStr(s), f.Pos())
		}
	}
	x.Ob(fn, "comments", "ParseSQL can succeed", n > 0, "", f.Pos())
	m.rep.done(x, f)
}

// checkCommentFile: ParseFile returns all groups of the map, sorted by position.
func (m *parseModel) checkCommentFile() {
	f := m.P.funcs[pname("ParseFile")]
	if f == nil {
		m.rep.obs = append(m.rep.obs, &Obligation{Fn: pname("ParseFile"), Kind: "verifier", Detail: "ParseFile exists", Why: "missing"})
		return
	}
	base := m.model
	x, st := m.setup(f, 2)
	pa, pT := fieldOf(m.p, m.pT, "parseComment")
	st.assume(x.load(st, pa, pT))
	ca, cT := fieldOf(m.p, m.pT, "comments")
	cmap := x.load(st, ca, cT)
	list := FreshT("stmts", types.NewSlice(m.P.pkgs["sqlast"].Type("Stmt").Type()))
	fn := fname(f)
	calls := 0
	var after *Term
	valCell := UF("ghost.rangeval", SRef)
	complete := map[*Term]bool{} // lists that hold the values of the map
	ascending := func(l *Term) *Term { return UF("ascending", SBool, l) }
	x.model = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && fname(ci.fn) == pname("ParseSQL") && ci.method == "" {
			calls++
			bad := st.clone()
			e := Fresh("err", SRef, nil)
			bad.assume(Not(Eq(e, Nil)))
			after = Fresh("comments", SStruct, nil)
			st.mem[UF("mapver", SRef, cmap)] = after
			return []Outcome{{st: st, vals: []*Term{list, Nil}}, {st: bad, vals: []*Term{NilSeq, e}}}, true
		}
		if ci.fn != nil && (ci.fn.String() == "sort.Slice" || ci.fn.String() == "sort.SliceStable") {
			l := ci.args[0]
			if l.Op == "box" {
				l = l.A[0]
			}
			ok, why := m.sortsComments(fr, st, ci, l)
			x.Ob(fn, "comments", "the groups are sorted by the position of their first comment", ok, why, ci.instrPos())
			if ok {
				st.assume(ascending(l))
			}
			return []Outcome{{st: st}}, true
		}
		if ci.fn != nil && ci.method == "" && len(ci.args) > 0 && ci.args[0] == m.p {
			if _, ok := m.isL1(ci.fn); ok {
				x.Ob(fn, "comments", "ParseFile reads the text through ParseSQL only", false, fname(ci.fn), ci.instrPos())
			}
		}
		return base(x, fr, st, ci)
	}
	h := x.loadHook
	x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
		if addr.Op == "addr.f" && addr.S == "sqlast.CommentGroup.List" && !isFreshRoot(addr) {
			st.assume(Le(One, Len(m.lst(addr.A[0]))))
			return m.lst(addr.A[0])
		}
		return h(x, st, addr, t)
	}
	x.onRange = func(st *State, mp, k *Term) {
		if mp != cmap {
			st.mem[valCell] = Nil
		}
	}
	x.onRangeVal = func(st *State, ok, v *Term) {
		if v.Sort == SRef {
			st.assume(Implies(ok, Not(Eq(v, Nil))))
		}
		st.mem[valCell] = v
	}
	x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
		ok := isFreshRoot(addr)
		x.Ob(fn, "comments", "ParseFile changes neither the parser nor its comments", ok, addr.String(), pos)
	}
	st.mem[valCell] = Sym("norangeval", SRef, nil)
	x.onLoop = func(x *Exec, fr *Frame, lc *LoopCtx, head *State, backs []Exit) {
		exits := 0 // the loop is left from its head only
		for b := range lc.lp.blocks {
			for _, s := range b.Succs {
				if !lc.lp.blocks[s] && b != lc.lp.header {
					exits++
				}
			}
		}
		ranges := false
		for _, in := range lc.lp.header.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it := x.val(fr, head, nx.Iter); it != nil && it.Op == "uf" && it.S == "range" && it.A[0] == cmap && it.A[1] == after {
					ranges = true
				}
			}
		}
		if exits > 0 || !ranges || len(backs) == 0 {
			return
		}
		for _, s := range lc.vars {
			p, cell := lc.phiOf[s], lc.cellOf[s]
			if s.Op != "sym" || s.Sort != SSeq || !isGroupsT(s.T) || !isEmptySeq(lc.entry[s]) {
				continue
			}
			ok := true
			for _, e := range backs {
				v := e.st.mem[valCell]
				back := e.st.mem[cell]
				if p != nil {
					back = x.backVal(fr, e, p, lc.lp)
				}
				last, rest := splitLast(back)
				ok = ok && last != nil && rest == s && last == v
			}
			if ok {
				complete[s] = true
			}
		}
	}
	fT := m.P.pkgs["sqlast"].Type("File").Type()
	n := 0
	for _, e := range x.Run(f, []*Term{m.p}, nil, st, nil) {
		if e.kind == exPanic || !x.feasible(e.st, True) || !x.Prove(e.st, Eq(e.vals[1], Nil)) {
			continue
		}
		n++
		l := m.field(e.st, e.vals[0], fT, "Comments")
		x.Ob(fn, "comments", "the file's comments are all groups of the parser's map, each once", complete[l], l.String()+pathStr(e.st), f.Pos())
		x.Ob(fn, "comments", "the file's comments are in the order of the text", e.st.pcs[ascending(l)], l.String()+pathStr(e.st), f.Pos())
	}
	x.Ob(fn, "comments", "ParseFile succeeds when ParseSQL does", n > 0 && calls > 0, "", f.Pos())
	m.rep.done(x, f)
}

// sortsComments: the function given to sort.Slice compares the positions of the groups.
func (m *parseModel) sortsComments(fr *Frame, st *State, ci *CallInfo, l *Term) (bool, string) {
	x := m.x
	t := st.clone()
	i, j := Fresh("i", SInt, types.Typ[types.Int]), Fresh("j", SInt, types.Typ[types.Int])
	for _, k := range []*Term{i, j} {
		t.assume(Le(Zero, k))
		t.assume(Lt(k, Len(l)))
	}
	cp := types.NewPointer(m.commentT())
	gp := types.NewPointer(m.groupT())
	posT := fieldType(m.commentT(), "From")
	ps, ok := structOf(posT)
	if !ok || ps.NumFields() != 2 || ps.Field(0).Name() != "Line" || ps.Field(1).Name() != "Col" {
		return false, "a position is not a line and a column"
	}
	at := func(st *State, k *Term, f int) *Term {
		g := At(l, k, SRef, gp)
		st.assume(Not(Eq(g, Nil)))
		first := At(m.lst(g), Zero, SRef, cp)
		st.assume(Not(Eq(first, Nil)))
		p := m.field(st, first, m.commentT(), "From")
		return Sel(p, f, SInt, ps.Field(f).Type())
	}
	li, ci_, lj, cj := at(t, i, 0), at(t, i, 1), at(t, j, 0), at(t, j, 1)
	want := Or(Lt(li, lj), And(Eq(li, lj), Lt(ci_, cj)))
	outs := x.call(fr, t, &CallInfo{instr: ci.instr, dyn: ci.args[1], args: []*Term{i, j}, name: "dynamic"})
	for _, o := range outs {
		if o.pval != nil {
			return false, "the comparison panics" + pathStr(o.st)
		}
		if !x.feasible(o.st, True) {
			continue
		}
		r := o.vals[0]
		if !x.Prove(o.st, Implies(r, want)) || !x.Prove(o.st, Implies(want, r)) {
			return false, "the comparison gives " + r.String() + pathStr(o.st)
		}
	}
	return len(outs) > 0, "no result"
}

// checkCommentFrame: the functions that touch the reader's position, tokens, mode or comments are
// those verified here, or helpers that only those use.
func (m *parseModel) checkCommentFrame() {
	ok := map[*ssa.Function]bool{}
	for n := range l1names {
		if f := m.P.funcs[pname(n)]; f != nil {
			if _, is := m.isL1(f); is {
				ok[f] = true
			}
		}
	}
	for _, n := range []string{"ParseFile", "SetTokens"} {
		if f := m.P.funcs[pname(n)]; f != nil {
			ok[f] = true
		}
	}
	for n, mb := range m.P.pkgs[parserPkg].Members {
		if f, is := mb.(*ssa.Function); is && (n == "NewParser" || n == "NewParserWithOptions" || f.Signature.Results().Len() == 1 && tstr(f.Signature.Results().At(0).Type()) == parserPkg+".ParserOption") {
			ok[f] = true
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	touch := map[*ssa.Function]string{}
	for _, f := range m.P.allFuncs() {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != parserPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, is := in.(*ssa.FieldAddr); is {
					if pt, isP := fa.X.Type().Underlying().(*types.Pointer); isP && tstr(pt.Elem()) == parserPkg+".Parser" {
						fld := pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
						if !readOnly(fa) || fld == "comments" {
							touch[f] = fld
						}
					}
				}
				if c, is := in.(ssa.CallInstruction); is {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, is := (*o).(*ssa.Function); is {
						if c, isC := in.(ssa.CallInstruction); !isC || c.Common().Value != *o {
							escapes[g] = true
						}
					}
				}
			}
		}
	}
	var inside func(f *ssa.Function, d int) bool
	inside = func(f *ssa.Function, d int) bool {
		if ok[f] {
			return true
		}
		if f.Parent() != nil {
			return inside(f.Parent(), d)
		}
		if d > 8 || escapes[f] || len(callers[f]) == 0 || f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() {
			return false
		}
		for _, g := range callers[f] {
			if g != f && !inside(g, d+1) {
				return false
			}
		}
		return true
	}
	n := 0
	for f, fld := range touch {
		n++
		m.rep.obs = append(m.rep.obs, &Obligation{Fn: fname(f), Kind: "comments", Detail: "the parser's position, tokens, mode and comments are changed by the verified reader functions and their helpers only", OK: inside(f, 0), Why: "changes " + fld, Pos: m.P.prog.Fset.Position(f.Pos()).String()})
	}
	m.rep.obs = append(m.rep.obs, &Obligation{Fn: pname("nextTokenWithParseComment"), Kind: "comments", Detail: "some function moves the reader", OK: n > 0})
}

// readOnly: the address is only loaded from.
func readOnly(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.X != fa {
			return false
		}
	}
	return true
}
