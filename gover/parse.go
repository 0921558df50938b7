package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the parser's token reader ("level 1").
//
// The parser holds the tokens of the text (field tokens) and the number of tokens read (field
// index). S(j) is the j-th significant token (no whitespace, no comment), 0 <= j < M, and S(M)
// stands for the end of the text (the package's eofToken). cnt(i) is the number of significant
// tokens among the first i tokens; the reader's position is c = cnt(index). Every reader function
// is verified against the alternatives that l1 below lists; callers see only those, so that
// whatever they do depends on the significant tokens alone.

type parseModel struct {
	P      *Program
	x      *Exec
	rep    *Report
	prop   string
	p      *Term
	pT     types.Type // Parser
	tokT   types.Type // sqltoken.Token
	wordT  types.Type // sqltoken.SQLWord
	toks   *Term
	M      *Term
	idxA   *Term
	idxT   types.Type
	eofTok *Term
	eofErr *Term
	ixC    map[*Term]*Term
	kinds  map[string]*Term
	panicT []types.Type

	self       *ssa.Function // function whose body is being verified
	level      int
	c0         *Term
	contracts  map[string]*pContract // level 2
	used       map[string]bool
	needD      bool
	needW      bool
	wantPanic  bool
	anchors    []*Term
	clean      map[*Term]bool // loop variables and arguments that depend on the significant tokens only
	posOnly    map[*Term]bool
	dirtyMemo  map[*Term]string
	freeBranch func(c *Term) bool
	facts      func(st *State, k *pContract, res, c, end *Term)
	missing    map[string]*ssa.Function
	dropped    map[string]bool
	unspec     map[*Term]bool
	parked     bool // a result of a failed call was stored into a new object
	args       []*Term
	leafs      map[string]string
	spellVars  map[*Term]bool
	spellMemo  map[*Term]string
	hidden     map[*Term]bool // C01: nodes behind a predicate
	deriv      bool
	ix0        *Term // C13: the index at entry
	rawHook    func(st *State, i, k *Term)
	semi       *Term // C17: the position of a semicolon ahead, or M
}

const parserPkg = "xsqlparser"

func pname(n string) string { return "(*" + parserPkg + ".Parser)." + n }

func newParse(P *Program, rep *Report) *parseModel {
	m := &parseModel{P: P, rep: rep, prop: rep.prop, ixC: map[*Term]*Term{}, kinds: map[string]*Term{}, contracts: map[string]*pContract{}, used: map[string]bool{}, missing: map[string]*ssa.Function{}, unspec: map[*Term]bool{}, clean: map[*Term]bool{}, posOnly: map[*Term]bool{}, dirtyMemo: map[*Term]string{}, spellVars: map[*Term]bool{}, spellMemo: map[*Term]string{}}
	rep.keep = kindsOf(rep.prop)
	m.pT = P.pkgs[parserPkg].Type("Parser").Type()
	m.tokT = P.pkgs["sqltoken"].Type("Token").Type()
	m.wordT = P.pkgs["sqltoken"].Type("SQLWord").Type()
	m.p = Sym("p", SRef, types.NewPointer(m.pT))
	m.M = Sym("M", SInt, nil)
	for _, k := range []string{"SQLKeyword", "Number", "Char", "SingleQuotedString", "NationalStringLiteral", "Comma", "Whitespace", "Comment", "Eq", "Neq", "Lt", "Gt", "LtEq", "GtEq", "Plus", "Minus", "Mult", "Div", "Mod", "LParen", "RParen", "Period", "DoubleColon", "Semicolon", "LBracket", "RBracket", "ILLEGAL"} {
		m.kinds[k] = constOf(P, k)
	}
	m.idxA, m.idxT = fieldOf(m.p, m.pT, "index")
	m.panicT = panicTypes(P)
	return m
}

// panicTypes: the types of the values that the package's functions panic with explicitly.
func panicTypes(P *Program) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	for _, f := range P.allFuncs() {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != parserPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pn, ok := in.(*ssa.Panic); ok {
					if mi, ok := pn.X.(*ssa.MakeInterface); ok && !seen[tstr(mi.X.Type())] {
						seen[tstr(mi.X.Type())] = true
						out = append(out, mi.X.Type())
					}
				}
			}
		}
	}
	return out
}

// setup prepares x and the initial state for verifying f.
func (m *parseModel) setup(f *ssa.Function, level int) (*Exec, *State) {
	x := m.rep.exec(m.P, m.prop)
	m.x, m.self, m.level = x, f, level
	m.ixC = map[*Term]*Term{}
	x.top = f
	x.maxSteps = 40000000
	x.model = m.model
	x.prover = m.prover
	x.loadHook = m.loadHook
	x.loopCands = m.cands
	x.checkPanics = true
	st := newState()
	st.assume(Not(Eq(m.p, Nil)))
	ta, tT := fieldOf(m.p, m.pT, "tokens")
	x.loadHook = nil
	m.toks = x.load(st, ta, tT)
	x.loadHook = m.loadHook
	st.assume(Le(Zero, m.M))
	gi := m.P.globals()
	pk := m.P.pkgs[parserPkg]
	gv := func(n string) *Term {
		g := pk.Var(n)
		if g == nil {
			return nil
		}
		return gi.vals[mk("global", SRef, g.RelString(nil), 0, g.Type())]
	}
	m.eofTok = gv("eofToken")
	m.eofErr = gv("EOF")
	if m.eofErr == nil {
		m.eofErr = Sym("EOF", SRef, nil)
	}
	x.eofErr = m.eofErr
	st.assume(Not(Eq(m.eofErr, Nil)))
	ix := Sym("ix0", SInt, m.idxT)
	st.mem[m.idxA] = ix
	if level == 1 {
		m.c0 = UF("cnt", SInt, ix)
		m.cntAx(st, ix)
		st.assume(Le(Zero, ix))
		st.assume(Le(ix, Len(m.toks)))
	} else {
		m.c0 = Sym("c0", SInt, nil)
		m.ixC[ix] = m.c0
	}
	st.assume(Le(Zero, m.c0))
	st.assume(Le(m.c0, m.M))
	// Options: comment collection comes with its map
	pca, pcT := fieldOf(m.p, m.pT, "parseComment")
	ca, cT := fieldOf(m.p, m.pT, "comments")
	st.assume(Implies(x.load(st, pca, pcT), Not(Eq(x.load(st, ca, cT), Nil))))
	m.anchors = []*Term{m.c0}
	return x, st
}

// cntAx: the defining facts of cnt at i.
func (m *parseModel) cntAx(st *State, i *Term) {
	c := UF("cnt", SInt, i)
	st.assume(Le(Zero, c))
	st.assume(Le(c, m.M))
	st.assume(Implies(Eq(i, Zero), Eq(c, Zero)))
	st.assume(Implies(Eq(i, Len(m.toks)), Eq(c, m.M)))
}

func (m *parseModel) C(ix *Term) *Term {
	if c, ok := m.ixC[ix]; ok {
		return c
	}
	return UF("cnt", SInt, ix)
}

func (m *parseModel) cur(st *State) *Term { return m.C(st.mem[m.idxA]) }

func (m *parseModel) setC(st *State, c *Term) {
	ix := Fresh("ix", SInt, m.idxT)
	m.ixC[ix] = c
	if m.level == 1 {
		st.assume(Le(Zero, ix))
		st.assume(Le(ix, Len(m.toks)))
	}
	st.mem[m.idxA] = ix
}

// norm replaces cnt of the indices whose position is recorded.
func (m *parseModel) norm(t *Term) *Term {
	sub := map[*Term]*Term{}
	t.walk(map[*Term]bool{}, func(u *Term) {
		if u.Op == "uf" && u.S == "cnt" {
			if c, ok := m.ixC[u.A[0]]; ok {
				sub[u] = c
			}
		}
	})
	if len(sub) == 0 {
		return t
	}
	return Subst(t, sub)
}

func (m *parseModel) field(st *State, base *Term, T types.Type, f string) *Term {
	a, ft := fieldOf(base, T, f)
	h := m.x.loadHook
	m.x.loadHook = nil
	v := m.x.load(st, a, ft)
	m.x.loadHook = h
	return v
}

func (m *parseModel) kind(st *State, tok *Term) *Term { return m.field(st, tok, m.tokT, "Kind") }

func keyOf(tok *Term) *Term { return UF("key", SStr, tok) }

func (m *parseModel) isWord(st *State, tok *Term) *Term {
	wp := types.NewPointer(m.wordT)
	return IsType(m.field(st, tok, m.tokT, "Value"), tstr(wp), wp)
}

func (m *parseModel) word(st *State, tok *Term) *Term {
	return Unbox(m.field(st, tok, m.tokT, "Value"), types.NewPointer(m.wordT))
}

func (m *parseModel) strVal(st *State, tok *Term) *Term {
	return Unbox(m.field(st, tok, m.tokT, "Value"), types.Typ[types.String])
}

// wfTok: facts about a significant or raw token (the tokenizer's postcondition).
func (m *parseModel) wfTok(st *State, t *Term) {
	k := m.kind(st, t)
	v := m.field(st, t, m.tokT, "Value")
	st.assume(Not(Eq(t, Nil)))
	w := m.isWord(st, t)
	isK := Eq(k, m.kinds["SQLKeyword"])
	st.assume(Implies(isK, w))
	st.assume(Implies(w, isK))
	st.assume(Implies(w, Not(Eq(m.word(st, t), Nil))))
	st.assume(Or(w, Eq(keyOf(t), Str(""))))
	str := IsType(v, "string", types.Typ[types.String])
	for _, n := range []string{"Number", "SingleQuotedString", "NationalStringLiteral", "Whitespace", "Comment"} {
		if m.level > 1 && (n == "Whitespace" || n == "Comment") {
			continue
		}
		st.assume(Implies(Eq(k, m.kinds[n]), str))
	}
}

// tok gives the significant token at c with its facts (0 <= c <= M).
func (m *parseModel) tok(st *State, c *Term) *Term {
	t := mk("uf", SRef, "S", 0, types.NewPointer(m.tokT), c)
	mark := UF("tokfacts", SBool, t)
	if st.pcs[mark] {
		return t
	}
	st.pcs[mark] = true
	m.wfTok(st, t)
	k := m.kind(st, t)
	st.assume(Not(Eq(k, m.kinds["Whitespace"])))
	st.assume(Not(Eq(k, m.kinds["Comment"])))
	end := Eq(c, m.M)
	st.assume(Implies(end, Eq(k, m.kinds["ILLEGAL"])))
	st.assume(Or(end, Not(Eq(k, m.kinds["ILLEGAL"]))))
	if m.level == 1 && m.eofTok != nil {
		st.assume(Implies(end, Eq(t, m.eofTok)))
	}
	return t
}

func isTokTerm(t *Term) bool { return t.Op == "uf" && t.S == "S" || t.Op == "at" }

// tokOfWord: the token whose word w is.
func tokOfWord(w *Term) *Term {
	for w.Op == "ite" {
		w = w.A[1]
	}
	if w.Op == "unbox" && w.A[0].Op == "fld" && strings.HasSuffix(w.A[0].S, "Token.Value") {
		return w.A[0].A[0]
	}
	return nil
}

func (m *parseModel) loadHook(x *Exec, st *State, addr *Term, t types.Type) *Term {
	if addr == m.idxA {
		v := st.mem[addr]
		if _, ok := m.ixC[v]; ok || m.level == 1 {
			c := m.C(v)
			st.assume(Le(Zero, v))
			st.assume(Le(v, Len(m.toks)))
			if m.level == 1 {
				m.cntAx(st, v)
				st.assume(Eq(UF("cnt", SInt, v), c))
			}
		}
		return nil
	}
	if addr.Op == "addr.i" && isCommentElem(t) {
		st.assume(Not(Eq(At(addr.A[0], addr.A[1], SRef, t), Nil)))
	}
	if addr.Op == "addr.i" && addr.A[0] == m.toks {
		m.tokFacts(st, addr.A[1])
		return nil
	}
	if addr.Op == "addr.f" && strings.HasPrefix(addr.S, "sqltoken.SQLWord.") {
		if tk := tokOfWord(addr.A[0]); tk != nil {
			if strings.HasSuffix(addr.S, ".Keyword") {
				return keyOf(tk)
			}
			w := addr.A[0]
			q := m.field(st, w, m.wordT, "QuoteStyle")
			v := m.field(st, w, m.wordT, "Value")
			st.assume(Implies(And(m.isWord(st, tk), Eq(q, Zero)), Eq(keyOf(tk), upper(v))))
			st.assume(Implies(And(m.isWord(st, tk), Not(Eq(q, Zero))), Eq(keyOf(tk), Str(""))))
		}
	}
	return nil
}

// tokFacts: facts about the i-th token of the text.
func (m *parseModel) tokFacts(st *State, i *Term) {
	tk := At(m.toks, i, SRef, types.NewPointer(m.tokT))
	mark := UF("rawfacts", SBool, tk)
	if st.pcs[mark] {
		return
	}
	st.pcs[mark] = true
	m.wfTok(st, tk)
	k := m.kind(st, tk)
	st.assume(Not(Eq(k, m.kinds["ILLEGAL"])))
	sig := And(Not(Eq(k, m.kinds["Whitespace"])), Not(Eq(k, m.kinds["Comment"])))
	ci, ci1 := UF("cnt", SInt, i), UF("cnt", SInt, Add(i, One))
	m.cntAx(st, i)
	m.cntAx(st, Add(i, One))
	st.assume(Implies(sig, Eq(ci1, Add(ci, One))))
	st.assume(Or(sig, Eq(ci1, ci)))
	st.assume(Implies(sig, Eq(tk, m.tok(st, ci))))
	st.assume(Implies(sig, Lt(ci, m.M)))
	if m.rawHook != nil {
		m.rawHook(st, i, k)
	}
}

func upper(s *Term) *Term {
	if s.Op == "str" {
		return Str(strings.ToUpper(s.S))
	}
	return UF("strings.ToUpper", SStr, s)
}

// ---------- alternatives of the reader functions ----------

type valSpec struct {
	t    *Term               // the value; nil: any value satisfying cond
	cond func(v *Term) *Term // condition on the value (proved of the body, assumed by callers)
	det  string              // callers see a function of the position with this name
	T    types.Type
}

type l1alt struct {
	guard *Term
	vals  []valSpec
	c     *Term // position afterwards; nil: any
	same  bool  // index unchanged
	pan   bool
}

func (m *parseModel) eofE(st *State, c *Term) *Term {
	e := UF("eofE", SRef, c)
	st.assume(Implies(Lt(c, m.M), Eq(e, Nil)))
	st.assume(Implies(Eq(c, m.M), Eq(e, m.eofErr)))
	return e
}

func exact(t *Term) valSpec { return valSpec{t: t} }

var l1names = map[string]int{ // name -> number of results
	"nextToken": 2, "nextTokenWithParseComment": 2, "peekToken": 2, "prevToken": 1, "consumeToken": 2,
	"mustNextToken": 1, "parseKeyword": 3, "parseKeywords": 3, "expectKeyword": 1, "expectToken": 0, "Debug": 0,
}

// l1: preconditions and alternatives of a reader function at position c.
func (m *parseModel) l1(st *State, name string, args []*Term, c *Term) (pre []*Term, preWhat string, alts []l1alt) {
	errT := types.Universe.Lookup("error").Type()
	c1 := Add(c, One)
	in, end := Lt(c, m.M), Eq(c, m.M)
	endErr := valSpec{T: errT, det: "endErr:" + name, cond: func(v *Term) *Term { // nil exactly when there is a token
		return And(Implies(in, Eq(v, Nil)), Implies(end, Not(Eq(v, Nil))))
	}}
	switch name {
	case "nextToken", "nextTokenWithParseComment":
		t := m.tok(st, c)
		alts = []l1alt{
			{guard: in, vals: []valSpec{exact(t), exact(Nil)}, c: c1},
			{guard: end, vals: []valSpec{exact(t), exact(m.eofErr)}, c: c},
		}
		if name == "nextTokenWithParseComment" {
			a, T := fieldOf(m.p, m.pT, "parseComment")
			pre, preWhat = []*Term{m.x.load(st, a, T)}, "comments are collected"
		}
	case "peekToken":
		alts = []l1alt{{guard: True, vals: []valSpec{exact(m.tok(st, c)), exact(m.eofE(st, c))}, c: c, same: true}}
	case "prevToken":
		pre, preWhat = []*Term{Lt(Zero, c)}, "a token has been read"
		alts = []l1alt{{guard: True, vals: []valSpec{exact(m.tok(st, Sub(c, One)))}, c: Sub(c, One)}}
	case "mustNextToken":
		alts = []l1alt{{guard: in, vals: []valSpec{exact(m.tok(st, c))}, c: c1}, {guard: end, pan: true}}
	case "consumeToken", "expectToken":
		k := args[0]
		pre, preWhat = []*Term{Not(Eq(k, m.kinds["ILLEGAL"])), Not(Eq(k, m.kinds["Whitespace"])), Not(Eq(k, m.kinds["Comment"]))}, "the expected kind is that of a significant token"
		is := Eq(m.kind(st, m.tok(st, c)), k)
		if name == "consumeToken" {
			alts = []l1alt{
				{guard: is, vals: []valSpec{exact(True), exact(Nil)}, c: c1},
				{guard: Not(is), vals: []valSpec{exact(False), endErr}, c: c, same: true},
			}
		} else {
			alts = []l1alt{{guard: is, c: c1}, {guard: Not(is), pan: true}}
		}
	case "parseKeyword", "expectKeyword":
		t := m.tok(st, c)
		w := upper(args[0])
		pre, preWhat = []*Term{Not(Eq(w, Str("")))}, "the expected keyword is not empty"
		is := Eq(keyOf(t), w)
		if name == "parseKeyword" {
			alts = []l1alt{
				{guard: is, vals: []valSpec{exact(True), exact(t), exact(Nil)}, c: c1},
				{guard: Not(is), vals: []valSpec{exact(False), exact(t), endErr}, c: c, same: true},
			}
		} else {
			alts = []l1alt{{guard: is, vals: []valSpec{exact(t)}, c: c1}, {guard: Not(is), pan: true}}
		}
	case "parseKeywords":
		ws := args[0]
		if ws.Op == "seq" {
			var is, ts []*Term
			for i, w := range ws.A {
				t := m.tok(st, Add(c, Int(int64(i))))
				pre = append(pre, Not(Eq(upper(w), Str(""))))
				is = append(is, Eq(keyOf(t), upper(w)))
				ts = append(ts, t)
			}
			preWhat = "the expected keywords are not empty"
			n := Int(int64(len(ws.A)))
			// the tokens before a mismatch exist, so each position up to the first mismatch is <= M
			all := And(is...)
			alts = []l1alt{
				{guard: all, vals: []valSpec{exact(True), exact(Seq(ts...)), exact(Nil)}, c: Add(c, n)},
				{guard: Not(all), vals: []valSpec{exact(False), {T: types.NewSlice(types.NewPointer(m.tokT))}, exact(Nil)}, c: c},
			}
			break
		}
		n := Len(ws)
		all := UF("kwsOK", SBool, ws, n, c)
		alts = []l1alt{
			{guard: all, vals: []valSpec{exact(True), {T: types.NewSlice(types.NewPointer(m.tokT)), cond: func(v *Term) *Term {
				return And(Eq(Len(v), n), UF("toksAt", SBool, v, c))
			}}, exact(Nil)}, c: Add(c, n)},
			{guard: Not(all), vals: []valSpec{exact(False), {T: types.NewSlice(types.NewPointer(m.tokT))}, exact(Nil)}, c: c},
		}
	case "Debug":
		alts = []l1alt{{guard: True, c: c, same: true}}
	default:
		return nil, "", nil
	}
	return
}

// isL1: f is a reader function with the expected shape.
func (m *parseModel) isL1(f *ssa.Function) (string, bool) {
	if f == nil || f.Signature.Recv() == nil || tstr(f.Signature.Recv().Type()) != "*"+parserPkg+".Parser" {
		return "", false
	}
	n, ok := l1names[f.Name()]
	return f.Name(), ok && f.Signature.Results().Len() == n
}

// panicVals: possible values of a panic raised by a callee that satisfies its contract.
func (m *parseModel) panicVals(st *State) []*Term {
	var out []*Term
	for _, T := range m.panicT {
		v := FreshT("panic", T)
		if s, ok := T.Underlying().(*types.Struct); ok {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				f := FreshT("panic", s.Field(i).Type())
				if f.Sort == SRef {
					st.assume(Not(Eq(f, Nil)))
				}
				fs = append(fs, f)
			}
			v = Struct(T, fs...)
		}
		out = append(out, Box(v, T))
	}
	return out
}

// recovers: some frame on the stack has deferred calls, so panics of callees matter.
func recovers(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn.Recover != nil {
			return true
		}
	}
	return false
}

func (m *parseModel) applyL1(fr *Frame, st *State, ci *CallInfo, name string) []Outcome {
	c := m.cur(st)
	x := m.x
	pre, what, alts := m.l1(st, name, ci.args[1:], c)
	for _, p := range pre {
		x.require(fr, st, p, "precondition", name+" in "+fname(fr.fn)+": "+what, ci.instrPos())
	}
	m.used[name] = true
	var outs []Outcome
	for i, a := range alts {
		g := st.eval(a.guard)
		if g == False || (g != True && !x.feasible(st, g)) {
			continue
		}
		s := st
		if i < len(alts)-1 {
			s = st.clone()
		}
		s.assume(a.guard)
		if a.pan {
			if recovers(fr) {
				for _, pv := range m.panicVals(s) {
					s2 := s.clone()
					m.setC(s2, m.anyC(s2))
					outs = append(outs, Outcome{st: s2, pval: pv})
				}
			}
			continue
		}
		var vals []*Term
		for _, v := range a.vals {
			t := v.t
			if t == nil {
				if v.det != "" {
					t = mk("uf", sortOf(v.T), v.det, 0, v.T, c)
				} else {
					t = m.unspecified(name, v.T)
				}
				if v.cond != nil {
					s.assume(v.cond(t))
				}
			}
			vals = append(vals, t)
		}
		if !a.same {
			s.assume(Le(a.c, m.M))
			m.setC(s, a.c)
		}
		if m.prop == "C13" && name == "nextTokenWithParseComment" && i == 1 {
			s.assume(readAll)
		}
		outs = append(outs, Outcome{st: s, vals: vals})
	}
	return outs
}

func (m *parseModel) anyC(st *State) *Term {
	c := Fresh("c", SInt, nil)
	st.assume(Le(Zero, c))
	st.assume(Le(c, m.M))
	return c
}

func (ci *CallInfo) instrPos() token.Pos {
	if ci.instr != nil {
		return ci.instr.Pos()
	}
	return token.NoPos
}

func (m *parseModel) model(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
	ret := func(vs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, vals: vs}}, true }
	if ci.fn != nil && ci.method == "" {
		if n, ok := m.isL1(ci.fn); ok && ci.args[0] == m.p {
			return m.applyL1(fr, st, ci, n), true
		}
		if k := m.contracts[fname(ci.fn)]; k != nil && len(ci.args) > 0 && ci.args[0] == m.p {
			return m.applyL2(fr, st, ci, k), true
		}
	}
	full := ""
	if ci.fn != nil {
		full = ci.fn.String()
	}
	switch full {
	case "strings.EqualFold":
		return ret(Eq(upper(ci.args[0]), upper(ci.args[1])))
	case "strings.ToUpper":
		return ret(upper(ci.args[0]))
	case "(*" + modPath + "/sqltoken.SQLWord).String":
		x.require(fr, st, Not(Eq(ci.args[0], Nil)), "nil-deref", "receiver of String", ci.instrPos())
		return ret(UF("wordstr", SStr, ci.args[0]))
	case modPath + "/sqltoken.MakeKeyword": // verified by checkMakeKeyword
		w := newAlloc(m.wordT)
		for i, v := range []*Term{ci.args[0], ci.args[1], upper(ci.args[0])} {
			a, T := fieldOf(w, m.wordT, []string{"Value", "QuoteStyle", "Keyword"}[i])
			x.store0(st, a, v, T)
		}
		m.needW = true
		return ret(w)
	case "strconv.Atoi", "strconv.ParseFloat":
		n, s := "atoi", SInt
		if full == "strconv.ParseFloat" {
			n, s = "parsefloat", SFloat
		}
		good := UF(n+"OK", SBool, ci.args[0])
		if x.mute == 0 && m.level == 2 && x.wants("dependence") {
			m.dep(fr, "the argument of "+full, ci.args[0], st, ci.instrPos())
		}
		m.spell(fr, "the argument of "+full, ci.args[0], st, ci.instrPos())
		s2 := st.clone()
		st.assume(good)
		s2.assume(Not(good))
		e := newErr(n)
		s2.assume(Not(Eq(e, Nil)))
		s2.assume(Not(Eq(e, m.eofErr)))
		return []Outcome{{st: st, vals: []*Term{UF(n, s, ci.args[0]), Nil}}, {st: s2, vals: []*Term{Fresh(n, s, nil), e}}}, true
	}
	if ci.name == "builtin.append" {
		m.appendNonNil(fr, st, ci)
	}
	return nil, false
}

// lists of comments hold no nil: checked when appended, assumed when read.
func (m *parseModel) appendNonNil(fr *Frame, st *State, ci *CallInfo) {
	if ci.sig == nil || ci.sig.Params().Len() == 0 {
		return
	}
	sl, ok := ci.sig.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok || !isCommentElem(sl.Elem()) {
		return
	}
	b := ci.args[1]
	if b.Op != "seq" {
		m.x.Ob(fname(m.x.top), "invariant", "appended comments are not nil in "+fname(fr.fn), false, b.String(), ci.instrPos())
		return
	}
	for _, e := range b.A {
		ok := nonNil(e) || m.x.Prove(st, Not(Eq(e, Nil)))
		m.x.Ob(fname(m.x.top), "invariant", "appended comments are not nil in "+fname(fr.fn), ok, e.String(), ci.instrPos())
	}
}

func isCommentElem(t types.Type) bool {
	s := tstr(t)
	return s == "*sqlast.Comment" || s == "*sqlast.CommentGroup"
}

// ---------- prover ----------

func (m *parseModel) prover(x *Exec, st *State, goal *Term) (bool, bool) {
	g := m.norm(goal)
	if x.wants("grouping") && m.level == 2 {
		g = m.expandEdges(st, g)
	}
	if m.level == 1 {
		seen := map[*Term]bool{}
		f := func(u *Term) {
			if u.Op == "uf" && u.S == "cnt" {
				m.cntAx(st, u.A[0])
			}
			if u.Op == "at" && u.A[0] == m.toks && x.sol.Valid(st.pc, And(Le(Zero, u.A[1]), Lt(u.A[1], Len(m.toks)))) {
				m.tokFacts(st, u.A[1])
			}
		}
		g.walk(seen, f)
		for _, c := range st.pc[:len(st.pc):len(st.pc)] {
			c.walk(seen, f)
		}
	}
	g = st.eval(g)
	if g == True {
		return true, true
	}
	if m.level == 1 && g.Op != "and" && x.sol.Valid(st.pc, False) {
		return true, true // the facts above show that there is no such path
	}
	if g.Op == "not" && g.A[0].Op == "and" { // a disjunction
		if h, ok := m.proveOr(x, st, g); h {
			return true, ok
		}
	}
	if isPred(g) {
		return true, m.provePred(st, g)
	}
	if g.Op == "uf" && (g.S == "kwsOK" || g.S == "toksAt") {
		return true, m.proveKws(x, st, g)
	}
	if g.Op == "not" && g.A[0].Op == "uf" && g.A[0].S == "kwsOK" {
		return true, m.refuteKws(x, st, g.A[0])
	}
	if g != goal {
		if g.Op == "and" {
			return true, x.Prove(st, g)
		}
		return true, x.sol.Valid(st.pc, g)
	}
	return false, false
}

func hasPred(t *Term) bool {
	if t.Op == "not" {
		return hasPred(t.A[0])
	}
	return isPred(t) || t.Op == "uf" && (t.S == "kwsOK" || t.S == "toksAt")
}

// proveOr proves a disjunction one of whose members is a ghost predicate.
func (m *parseModel) proveOr(x *Exec, st *State, g *Term) (bool, bool) {
	any := false
	for _, k := range g.A[0].A {
		if hasPred(k) {
			any = true
		}
	}
	if !any {
		return false, false
	}
	for i, k := range g.A[0].A {
		if !hasPred(k) {
			continue
		}
		s2 := st.clone()
		for j, h := range g.A[0].A {
			if j != i {
				s2.assume(h)
			}
		}
		if !x.feasible(s2, True) || x.sol.Valid(s2.pc, False) || x.Prove(s2, Not(k)) {
			return true, true
		}
	}
	return true, false
}

// kwsOK(ws,i,c): the first i keywords of ws are the keys of the tokens from c on.
// toksAt(s,c): the j-th element of s is the token at c+j, for all j.
func (m *parseModel) proveKws(x *Exec, st *State, g *Term) bool {
	if g.S == "toksAt" {
		s, c := g.A[0], g.A[1]
		switch s.Op {
		case "nilseq":
			return true
		case "seq":
			for i, e := range s.A {
				if !x.Prove(st, Eq(e, m.tok(st, Add(c, Int(int64(i)))))) {
					return false
				}
			}
			return true
		case "snoc":
			return m.proveKws(x, st, UF("toksAt", SBool, s.A[0], c)) && x.Prove(st, Eq(s.A[1], m.tok(st, Add(c, Len(s.A[0])))))
		}
		return st.pcs[g]
	}
	ws, i, c := g.A[0], g.A[1], g.A[2]
	if x.sol.Valid(st.pc, Eq(i, Zero)) {
		return true
	}
	if x.sol.Valid(st.pc, g) {
		return true
	}
	for _, f := range st.pc {
		if f.Op == "not" && f.A[0].Op == "and" { // a disjunction
			for _, k := range f.A[0].A {
				if k.Op == "not" && k.A[0].Op == "uf" && k.A[0].S == "kwsOK" && x.sol.Valid(st.pc, k.A[0]) {
					f = k.A[0]
					break
				}
			}
		}
		if f.Op == "uf" && f.S == "kwsOK" && f.A[0] == ws && f.A[2] == c {
			if x.sol.Valid(st.pc, Eq(f.A[1], i)) {
				return true
			}
			if x.sol.Valid(st.pc, Eq(Add(f.A[1], One), i)) {
				w := At(ws, f.A[1], SStr, types.Typ[types.String])
				return x.sol.Valid(st.pc, Eq(keyOf(m.tok(st, Add(c, f.A[1]))), upper(w)))
			}
		}
	}
	return false
}

func (m *parseModel) refuteKws(x *Exec, st *State, g *Term) bool {
	ws, n, c := g.A[0], g.A[1], g.A[2]
	if x.sol.Valid(st.pc, Not(g)) {
		return true
	}
	for _, f := range st.pc {
		if f.Op == "not" && f.A[0].Op == "eq" && f.A[0].A[0].Sort == SStr {
			for k := 0; k < 2; k++ {
				u := f.A[0].A[k]
				if u.Op == "uf" && u.S == "strings.ToUpper" && u.A[0].Op == "at" && u.A[0].A[0] == ws {
					i := u.A[0].A[1]
					if x.sol.Valid(st.pc, And(Le(Zero, i), Lt(i, n))) && x.sol.Valid(st.pc, Eq(f.A[0].A[1-k], keyOf(m.tok(st, Add(c, i))))) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---------- loop invariants ----------

func (m *parseModel) cands(x *Exec, lc *LoopCtx) []*Term {
	var out []*Term
	var cphi, centry *Term
	for s, a := range lc.cellOf {
		if a == m.idxA {
			cphi = UF("cnt", SInt, s)
			centry = m.C(lc.entry[s])
			out = append(out, And(Le(Zero, s), Le(s, Len(m.toks))), And(Le(Zero, cphi), Le(cphi, m.M)), Le(centry, cphi), Eq(cphi, centry))
		}
	}
	if cphi == nil {
		centry = m.cur(lc.st0)
		cphi = centry
	}
	if m.level == 1 {
		out = append(out, m.cands1(lc, cphi)...)
	}
	if m.level == 2 && cphi != centry {
		// a value computed from what is read next is computed from it in every round
		for v := range lc.phiOf {
			if e := lc.entry[v]; v.Op == "sym" && e != nil && e.Op == "ite" && v.Sort == SInt {
				out = append(out, Eq(v, Subst(e, map[*Term]*Term{centry: cphi})))
			}
		}
	}
	if m.level == 2 {
		out = append(out, m.cands2(x, lc, cphi, centry)...)
		out = append(out, m.groupCands(lc, cphi)...)
		if m.deriv {
			out = append(out, m.derivCands(lc, cphi, centry)...)
		}
	}
	return out
}

// cands1: candidate invariants for the loops of the reader functions. Each is also tried under
// the assumption that an error variable is or is not nil, or a flag is or is not set.
func (m *parseModel) cands1(lc *LoopCtx, cphi *Term) []*Term {
	var base, guards, seqs []*Term
	var ix *Term
	for s, a := range lc.cellOf {
		if a == m.idxA {
			ix = s
		}
	}
	ints := []*Term{}
	for _, s := range lc.vars {
		if s.Op != "sym" || s == lc.entry[s] {
			continue
		}
		switch {
		case s.Sort == SBool:
			guards = append(guards, s, Not(s))
		case s.Sort == SRef && isErrT(s.T):
			guards = append(guards, Eq(s, Nil), Not(Eq(s, Nil)))
			base = append(base, Eq(s, m.eofErr))
		case s.Sort == SSeq:
			seqs = append(seqs, s)
		case s.Sort == SInt:
			ints = append(ints, s)
		}
	}
	for _, s := range lc.vars {
		if s.Op == "sym" && s != lc.entry[s] && ix != nil && s.T != nil && tstr(s.T) == "*sqltoken.Token" {
			pt := types.NewPointer(m.tokT)
			for _, i := range []*Term{Sub(ix, One), ix} {
				base = append(base, And(Eq(s, At(m.toks, i, SRef, pt)), Le(Zero, i), Lt(i, Len(m.toks))))
			}
			for _, d := range []*Term{m.c0, Sub(m.c0, One)} {
				base = append(base, Eq(s, mk("uf", SRef, "S", 0, pt, d)))
			}
		}
	}
	if ix != nil {
		for _, i := range []*Term{Sub(ix, One), ix, Add(ix, One)} {
			k := UF("cnt", SInt, i)
			base = append(base, Eq(k, m.c0), Le(k, m.c0), Le(m.c0, k))
		}
		base = append(base, Le(One, ix), Eq(ix, Len(m.toks)))
	}
	for _, s := range ints {
		// a local copy of the index
		k := UF("cnt", SInt, s)
		base = append(base, Eq(k, UF("cnt", SInt, lc.entry[s])), And(Le(Zero, s), Le(s, Len(m.toks))))
		for _, f := range lc.st0.pc {
			if f.Op == "uf" && f.S == "kwsOK" {
				base = append(base, UF("kwsOK", SBool, f.A[0], s, f.A[2]))
			}
		}
		for _, p := range m.self.Params {
			sl, ok := p.Type().Underlying().(*types.Slice)
			if !ok || tstr(sl.Elem()) != "string" {
				continue
			}
			ws := lc.st0.env[p]
			if ws == nil {
				continue
			}
			for _, i := range []*Term{s, Add(s, One)} {
				base = append(base, UF("kwsOK", SBool, ws, i, m.c0), Eq(cphi, Add(m.c0, i)), And(Le(Zero, i), Le(i, Len(ws))))
				for _, q := range seqs {
					base = append(base, UF("toksAt", SBool, q, m.c0), Eq(Len(q), i))
				}
			}
			base = append(base, Not(UF("kwsOK", SBool, ws, Len(ws), m.c0)))
		}
	}
	out := append([]*Term{}, base...)
	for _, g := range guards {
		for _, b := range base {
			out = append(out, Or(g, b))
		}
	}
	return out
}

// ---------- verification of the reader functions ----------

func (m *parseModel) level1(want string) {
	for _, n := range []string{"nextTokenWithParseComment", "nextToken", "peekToken", "prevToken", "mustNextToken", "consumeToken", "parseKeyword", "parseKeywords", "expectKeyword", "expectToken", "Debug"} {
		f := m.P.funcs[pname(n)]
		if f == nil {
			continue
		}
		if _, ok := m.isL1(f); !ok {
			continue
		}
		m.checkL1(f, n)
	}
}

func (m *parseModel) checkL1(f *ssa.Function, name string) {
	x, st := m.setup(f, 1)
	x.onStore = m.frame
	args := []*Term{m.p}
	for i, p := range f.Params {
		if i > 0 {
			args = append(args, Sym("arg."+p.Name(), sortOf(p.Type()), p.Type()))
		}
	}
	c := m.c0
	pre, _, _ := m.l1(st, name, args[1:], c)
	for _, p := range pre {
		st.assume(p)
	}
	if name == "parseKeywords" { // precondition for every element
		x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
			if addr.Op == "addr.i" && addr.A[0] == args[1] {
				st.assume(Not(Eq(upper(At(args[1], addr.A[1], SStr, t)), Str(""))))
			}
			return m.loadHook(x, st, addr, t)
		}
	}
	fn := fname(f)
	n := 0
	for _, e := range x.Run(f, args, nil, st, nil) {
		if !x.feasible(e.st, True) {
			continue
		}
		n++
		_, _, alts := m.l1(e.st, name, args[1:], c)
		why := "no alternative of the contract applies"
		ok := false
		for _, a := range alts {
			if a.pan != (e.kind == exPanic) {
				continue
			}
			if !x.Prove(e.st, a.guard) {
				continue
			}
			if a.pan {
				if w := m.panicOK(e.st, e.pval); w != "" {
					why = w
					continue
				}
				ok = true
				break
			}
			why = ""
			for i, v := range a.vals {
				if v.t != nil && !x.Prove(e.st, Eq(e.vals[i], v.t)) {
					why = fmt.Sprintf("result %d is %s, not %s", i, e.vals[i], v.t)
				}
				if v.t == nil && v.cond != nil && !x.Prove(e.st, v.cond(e.vals[i])) {
					why = fmt.Sprintf("result %d (%s) does not satisfy %s", i, e.vals[i], v.cond(e.vals[i]))
				}
			}
			ix := e.st.mem[m.idxA]
			if why == "" && !x.Prove(e.st, Eq(m.C(ix), a.c)) {
				why = fmt.Sprintf("the position afterwards is %s, not %s", m.C(ix), a.c)
			}
			if _, rec := m.ixC[ix]; why == "" && !rec && !x.Prove(e.st, And(Le(Zero, ix), Le(ix, Len(m.toks)))) {
				why = "the index leaves the token list"
			}
			if why == "" {
				ok = true
				break
			}
		}
		if !ok {
			why += pathStr(e.st)
		}
		x.Ob(fn, "reader-contract", name+" gives one of its specified results", ok, why, f.Pos())
	}
	if n == 0 {
		x.Ob(fn, "reader-contract", name+" has a feasible path", false, "no path", f.Pos())
	}
	m.rep.done(x, f)
}

// panicOK: the panic value is one that the exported functions turn into an error.
func (m *parseModel) panicOK(st *State, pv *Term) string {
	if pv == nil || pv.Op != "box" {
		return "panics with an unknown value"
	}
	for _, T := range m.panicT {
		if tstr(T) == pv.S {
			if v := pv.A[0]; v.Op == "struct" {
				for _, f := range v.A {
					if f.Sort == SRef && !m.x.Prove(st, Not(Eq(f, Nil))) {
						return "panics with a nil error"
					}
				}
			}
			return ""
		}
	}
	return "panics with a " + pv.S
}

// frame: what a parser function may write.
func (m *parseModel) frame(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
	ok := isFreshRoot(addr) || addr == m.idxA
	if !ok && addr.Op == "addr.i" && addr.S == "map" {
		ca, cT := fieldOf(m.p, m.pT, "comments")
		ok = addr.A[0] == x.load(st, ca, cT)
	}
	if !ok && addr.Op == "addr.f" && addr.T != nil {
		if pt, k := addr.T.Underlying().(*types.Pointer); k && tstr(pt.Elem()) == "sqltoken.Pos" {
			ok = !strings.HasPrefix(addr.S, "sqltoken.")
		}
	}
	if !ok && addr.Op == "addr.f" && strings.HasPrefix(addr.S, "sqlast.CommentGroup.") && m.level == 1 {
		ok = true // groups under construction (reached through a loop variable)
	}
	if addr.Op == "addr.i" && addr.S == "map" && val.T != nil && isCommentElem(val.T) || addr.Op == "addr.i" && addr.S == "map" && val.Sort == SRef && val.Op == "alloc" {
		gT := m.P.pkgs["sqlast"].Type("CommentGroup").Type()
		g := (nonNil(val) || x.Prove(st, Not(Eq(val, Nil)))) && x.Prove(st, Le(One, Len(m.field(st, val, gT, "List"))))
		x.Ob(fname(x.top), "invariant", "the comment map holds non-empty groups only", g, val.String()+pathStr(st), pos)
	}
	if addr.Op == "addr.f" && addr.S == "sqlast.CommentGroup.List" && !isFreshRoot(addr) {
		old := m.field(st, addr.A[0], m.P.pkgs["sqlast"].Type("CommentGroup").Type(), "List")
		x.Ob(fname(x.top), "invariant", "comment groups only grow", x.Prove(st, Le(Len(old), Len(val))), val.String(), pos)
	}
	x.Ob(fname(x.top), "frame", "store in "+fname(fr.fn)+" goes to new memory, the reader's position or the comment map", ok, addr.String(), pos)
}
