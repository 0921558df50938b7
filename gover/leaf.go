package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: every leaf node (identifier, literal value) that a parse function makes reports the start
// and end of the one token it holds.
// C16: the spelling of a word reaches nothing but the names in the tree; everything else that is
// decided about a word goes through its keyword, which is its spelling in upper case, and empty
// for a delimited identifier.

func init() {
	extraJobs["LEAF"] = (*parseModel).checkLeafTypes
	extraJobs["WORD"] = (*parseModel).checkWord
}

// leafTypes: Ident and the literal value types.
func (m *parseModel) leafTypes() []*types.Named {
	pk := m.P.pkgs["sqlast"]
	var val *types.Interface
	if t := pk.Type("Value"); t != nil {
		val, _ = t.Type().Underlying().(*types.Interface)
	}
	var out []*types.Named
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t, ok := pk.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		nt, ok := t.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); !ok {
			continue
		}
		if n == "Ident" || val != nil && types.Implements(types.NewPointer(nt), val) {
			out = append(out, nt)
		}
	}
	return out
}

func (m *parseModel) leaf(T types.Type) string {
	if m.leafs == nil {
		m.leafs = map[string]string{}
		for _, t := range m.leafTypes() {
			m.leafs[tstr(t)] = t.Obj().Name()
		}
	}
	if T == nil {
		return ""
	}
	return m.leafs[tstr(T)]
}

// reach: the memory allocated by the function that the terms lead to.
func reach(st *State, roots ...*Term) []*Term {
	cells := map[*Term][]*Term{}
	for a, v := range st.mem {
		if r := root(a); r.Op == "alloc" {
			cells[r] = append(cells[r], v)
		}
	}
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "alloc" {
			out = append(out, t)
			for _, v := range cells[t] {
				rec(v)
			}
		}
		for _, a := range t.A {
			rec(a)
		}
	}
	for _, r := range roots {
		rec(r)
	}
	sortTerms(out)
	return out
}

// leaves checks the leaf nodes that the terms lead to.
func (m *parseModel) leaves(fr *Frame, st *State, what string, pos token.Pos, roots ...*Term) {
	x := m.x
	if x.mute > 0 || m.level != 2 {
		return
	}
	wp, ws := x.wants("position"), x.wants("spelling")
	if !wp && !ws {
		return
	}
	for _, a := range reach(st, roots...) {
		if n := m.leaf(a.T); n != "" {
			why := m.leafBad(st, a, n, wp)
			if why != "" {
				why += pathStr(st)
			}
			if wp {
				x.Ob(fname(x.top), "position", "the "+n+" in "+what+" of "+fname(fr.fn)+" holds one token's value and has that token's start and end", why == "", why, pos)
			} else if n == "Ident" {
				x.Ob(fname(x.top), "spelling", "the "+n+" in "+what+" of "+fname(fr.fn)+" has the spelling of its own word, quotes included", why == "", why, pos)
			}
		}
	}
}

// leafBad: why the leaf at a is not made from one token ("" if it is).
func (m *parseModel) leafBad(st *State, a *Term, n string, pos bool) string {
	x := m.x
	T := a.T
	get := func(f string) *Term {
		if i, ft := structFieldOpt(T, f); i >= 0 {
			return x.load(st, fieldAddr(a, T, i), ft)
		}
		return nil
	}
	from, to := get("From"), get("To")
	if from == nil || to == nil {
		return n + " has no fields From and To"
	}
	// the tokens it may have been made from
	var cands []*Term
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return n + " is no struct"
	}
	seen := map[*Term]bool{}
	for i := 0; i < s.NumFields(); i++ {
		get(s.Field(i).Name()).walk(seen, func(u *Term) {
			if isTokTerm(u) && u.T != nil && tstr(u.T) == "*sqltoken.Token" || u.Op == "ite" && u.T != nil && tstr(u.T) == "*sqltoken.Token" {
				cands = append(cands, u)
			}
		})
	}
	sortTerms(cands)
	why := "made from no token: value and positions " + from.String() + ", " + to.String()
	for _, t := range cands {
		k := m.kind(st, t)
		var is *Term
		switch n {
		case "Ident":
			is = And(m.isWord(st, t), Eq(get("Value"), UF("wordstr", SStr, m.word(st, t))))
		case "LongValue":
			is = And(Eq(k, m.kinds["Number"]), Eq(get("Long"), UF("atoi", SInt, m.strVal(st, t))))
		case "DoubleValue":
			is = And(Eq(k, m.kinds["Number"]), Eq(get("Double"), UF("parsefloat", SFloat, m.strVal(st, t))))
		case "SingleQuotedString", "NationalStringLiteral":
			is = And(Eq(k, m.kinds[n]), Eq(get("String"), m.strVal(st, t)))
		case "BooleanValue":
			is = And(Implies(get("Boolean"), Eq(keyOf(t), Str("TRUE"))), Or(get("Boolean"), Eq(keyOf(t), Str("FALSE"))))
		case "NullValue":
			is = Eq(keyOf(t), Str("NULL"))
		default:
			return "no token stands for a " + n
		}
		if !x.Prove(st, is) {
			why = n + " does not hold the value of " + t.String()
			continue
		}
		if !pos {
			return ""
		}
		if !x.Prove(st, Eq(from, m.field(st, t, m.tokT, "From"))) {
			why = "the start is " + from.String() + ", not that of " + t.String()
			continue
		}
		if !x.Prove(st, Eq(to, m.field(st, t, m.tokT, "To"))) {
			why = "the end is " + to.String() + ", not that of " + t.String()
			continue
		}
		return ""
	}
	return why
}

func structFieldOpt(T types.Type, name string) (int, types.Type) {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

// ---------- spelling ----------

// spelled: the part of t that carries a word's spelling ("" if none).
func (m *parseModel) spelled(t *Term) string {
	if v, ok := m.spellMemo[t]; ok {
		return v
	}
	r := m.spelled0(t)
	m.spellMemo[t] = r
	return r
}

func (m *parseModel) spelled0(t *Term) string {
	switch t.Op {
	case "sym":
		if m.spellVars[t] {
			return t.S
		}
	case "uf":
		if t.S == "wordstr" || t.S == "key" {
			if t.S == "key" {
				return ""
			}
			return t.String()
		}
		if strings.HasPrefix(t.S, "strings.ToUpper") || t.S == "atoi" || t.S == "parsefloat" {
			break
		}
	case "fld":
		if strings.HasPrefix(t.S, "sqltoken.SQLWord.") && !strings.HasSuffix(t.S, ".Keyword") {
			return t.String()
		}
		if strings.HasPrefix(t.S, "sqlast.") && t.Sort == SStr {
			return t.String()
		}
	}
	for _, a := range t.A {
		if w := m.spelled(a); w != "" {
			return w
		}
	}
	return ""
}

func (m *parseModel) spell(fr *Frame, what string, t *Term, st *State, pos token.Pos) {
	if m.x.mute > 0 || m.level != 2 || !m.x.wants("spelling") {
		return
	}
	w := m.spelled(t)
	why := ""
	if w != "" {
		why = t.String() + " depends on the spelling " + w + pathStr(st)
	}
	m.x.Ob(fname(m.x.top), "spelling", what+" in "+fname(fr.fn)+" depends on words through their keywords only", w == "", why, pos)
}

func (m *parseModel) spellBranch(fr *Frame, st *State, cond *Term, pos token.Pos) {
	if m.x.mute > 0 || m.level != 2 || !m.x.wants("spelling") {
		return
	}
	e := st.eval(cond)
	if e == True || e == False || m.spelled(e) == "" || !m.x.feasible(st, e) || !m.x.feasible(st, Not(e)) {
		m.spell(fr, "a branch", True, st, pos)
		return
	}
	m.spell(fr, "a branch", e, st, pos)
}

// spellStore: a name's own text is where spellings go.
func (m *parseModel) spellStore(fr *Frame, st *State, addr, val *Term, pos token.Pos) {
	if m.x.mute > 0 || m.level != 2 || !m.x.wants("spelling") || addr == m.idxA {
		return
	}
	if addr.Op == "addr.f" && addr.S == "sqlast.Ident.Value" && addr.A[0].Op == "alloc" {
		return // judged by leaves
	}
	if addr.Op == "alloc" && val.Op == "struct" && addr.T != nil && tstr(addr.T) == "sqlast.Ident" {
		return
	}
	if addr.Op == "addr.f" && strings.HasPrefix(addr.S, parserPkg+".Parser.") || addr.Op == "addr.i" && addr.S == "map" {
		return
	}
	if m.isErrVal(val, addr) || localCell(addr) || m.isPanicVal(root(addr).T) || root(addr).T != nil && isStrCell(addr) {
		return
	}
	m.spell(fr, "a stored value", val, st, pos)
}

// isStrCell: a local variable of type string; what is read from it is judged where it is used.
func isStrCell(addr *Term) bool {
	return addr.Op == "alloc" && addr.T != nil && types.Identical(addr.T.Underlying(), types.Typ[types.String])
}

// spellLoop decides which loop variables carry a spelling.
func (m *parseModel) spellLoop(x *Exec, fr *Frame, lc *LoopCtx, backs []Exit) {
	for ch := true; ch; {
		ch = false
		for _, s := range lc.vars {
			if s.Op != "sym" || s == lc.entry[s] || m.spellVars[s] || lc.cellOf[s] == m.idxA {
				continue
			}
			d := m.spelled(lc.entry[s]) != ""
			for _, e := range backs {
				if m.spelled(m.backOf(x, fr, lc, s, e)) != "" {
					d = true
				}
			}
			if d {
				m.spellVars[s] = true
				m.spellMemo = map[*Term]string{}
				ch = true
			}
		}
	}
}

// backOf: the value of loop variable s at the end of an iteration.
func (m *parseModel) backOf(x *Exec, fr *Frame, lc *LoopCtx, s *Term, e Exit) *Term {
	if a, ok := lc.cellOf[s]; ok {
		if u := e.st.mem[a]; u != nil {
			return u
		}
		return s
	}
	if lc.phiOf[s] == nil {
		return s
	}
	return x.backVal(fr, e, lc.phiOf[s], lc.lp)
}

// leafLoop checks the leaves that an iteration hands on.
func (m *parseModel) leafLoop(x *Exec, fr *Frame, lc *LoopCtx, backs []Exit) {
	var in []*Term
	for _, s := range lc.vars {
		in = append(in, lc.entry[s])
	}
	p := lc.lp.header.Instrs[0].Pos()
	m.leaves(fr, lc.st0, "a loop", p, in...)
	m.grouping(fr, lc.st0, "a loop", p, in...)
	for _, e := range backs {
		var out []*Term
		for _, s := range lc.vars {
			out = append(out, m.backOf(x, fr, lc, s, e))
		}
		m.leaves(fr, e.st, "a loop", p, out...)
		m.grouping(fr, e.st, "a loop", p, out...)
	}
}

// ---------- the leaf types and the words themselves ----------

// checkLeafTypes: Pos and End of a leaf are its fields From and To.
func (m *parseModel) checkLeafTypes() {
	for _, t := range m.leafTypes() {
		for i, n := range []string{"Pos", "End"} {
			f := m.P.funcs["(*sqlast."+t.Obj().Name()+")."+n]
			if f == nil {
				m.rep.obs = append(m.rep.obs, &Obligation{Prop: m.prop, Fn: t.Obj().Name(), Kind: "verifier", Detail: n + " exists", Why: "missing"})
				continue
			}
			x := m.rep.exec(m.P, m.prop)
			x.top = f
			x.checkPanics = true
			st := newState()
			v := Sym("v", SRef, f.Params[0].Type())
			st.assume(Not(Eq(v, Nil)))
			fld := []string{"From", "To"}[i]
			k := 0
			for _, e := range x.Run(f, []*Term{v}, nil, st, nil) {
				ok := e.kind != exPanic
				why := "panics"
				if ok {
					k++
					a, ft := fieldOf(v, t, fld)
					why = e.vals[0].String()
					ok = x.Prove(e.st, Eq(e.vals[0], x.load(st, a, ft)))
				}
				x.Ob(fname(f), "position", n+" of "+t.Obj().Name()+" is the field "+fld, ok, why, f.Pos())
			}
			x.Ob(fname(f), "position", n+" returns", k > 0, "", f.Pos())
			m.rep.done(x, f)
		}
	}
}

// checkWord: words are made with their own spelling, quote style and upper-case keyword; String
// gives the spelling with its quotes; an identifier prints as its spelling.
func (m *parseModel) checkWord() {
	P, rep := m.P, m.rep
	old := rep.keep
	rep.keep = nil
	defer func() { rep.keep = old }()
	checkMakeKeyword(P, rep)
	f := P.funcs["(*sqltoken.SQLWord).String"]
	if f == nil {
		rep.obs = append(rep.obs, &Obligation{Prop: m.prop, Fn: "SQLWord.String", Kind: "verifier", Detail: "String exists", Why: "missing"})
		return
	}
	x := rep.exec(P, rep.prop)
	x.top = f
	x.checkPanics = true
	st := newState()
	w := Sym("w", SRef, f.Params[0].Type())
	st.assume(Not(Eq(w, Nil)))
	get := func(n string) *Term { a, t := fieldOf(w, m.wordT, n); return x.load(st, a, t) }
	q, v := get("QuoteStyle"), get("Value")
	n := 0
	for _, e := range x.Run(f, []*Term{w}, nil, st, nil) {
		if !x.feasible(e.st, True) {
			continue
		}
		if e.kind == exPanic {
			x.Ob(fname(f), "no-panic", "String does not panic", false, e.pval.String(), f.Pos())
			continue
		}
		n++
		why := ""
		for _, c := range []struct {
			q    rune
			a, b string
		}{{0, "", ""}, {'"', "\"", "\""}, {'[', "[", "]"}, {'`', "`", "`"}} {
			s := e.st.clone()
			s.assume(Eq(q, Int(int64(c.q))))
			if !x.feasible(s, True) {
				continue
			}
			want := v
			if c.q != 0 {
				want = SCat(Str(c.a), v, Str(c.b))
			}
			r := foldRunes(Subst(e.vals[0], map[*Term]*Term{q: Int(int64(c.q))}))
			if r != want && !x.Prove(s, Eq(r, want)) {
				why = "with quote style " + string(c.q) + ": " + r.String() + ", not " + want.String() + pathStr(s)
			}
		}
		x.Ob(fname(f), "spelling", "String gives the word between its own quotes", why == "", why, f.Pos())
	}
	x.Ob(fname(f), "spelling", "String returns", n > 0, "", f.Pos())
	rep.done(x, f)
}

// foldRunes: string(r) of a constant r is a constant.
func foldRunes(t *Term) *Term {
	if t.Op == "uf" && t.S == "runestr" && t.A[0].Op == "int" {
		return Str(string(rune(t.A[0].I)))
	}
	if t.Op == "scat" {
		var ps []*Term
		for _, a := range t.A {
			ps = append(ps, foldRunes(a))
		}
		return SCat(ps...)
	}
	return t
}
