package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The entry points above the parse functions: ParseSQL, ParseFile, the constructors.

func init() {
	extraJobs["SQL"] = (*parseModel).checkSQL
	extraJobs["FILE"] = (*parseModel).checkFile
	extraJobs["NEW"] = (*parseModel).checkNew
	extraJobs["NODES"] = (*parseModel).nodeCells
	extraJobs["LEX"] = (*parseModel).checkLex
}

// entry prepares the verification of a method of the parser at level 2.
func (m *parseModel) entry(f *ssa.Function) (*Exec, *State) {
	x, st := m.setup(f, 2)
	m.hooks(x)
	return x, st
}

// ---------- ParseSQL ----------

// checkSQL: ParseSQL accepts exactly the scripts. Its statements are what ParseStatement yields
// one after the other: success means that they are separated by single semicolons, with an
// optional last one, and that nothing is left; an error means that ParseStatement fails at the
// start of a part, or that a part is followed by something else than a semicolon.
// Which of these is the case is a matter of the significant tokens alone.
func (m *parseModel) checkSQL() {
	f := m.P.funcs[pname("ParseSQL")]
	ps := m.contracts[pname("ParseStatement")]
	if f == nil || ps == nil {
		m.rep.obs = append(m.rep.obs, &Obligation{Fn: pname("ParseSQL"), Kind: "verifier", Detail: "ParseSQL and ParseStatement exist", Why: "missing"})
		return
	}
	m.freeBranch = func(c *Term) bool { // the comment mode may be tested: the script rule below holds in both
		if c.Op == "not" {
			c = c.A[0]
		}
		return c.Op == "fld" && strings.HasSuffix(c.S, "Parser.parseComment")
	}
	m.facts = func(st *State, k *pContract, res, c, end *Term) {
		if k == ps {
			st.assume(dN(res, c, end))
		}
	}
	x, st := m.entry(f)
	semi := m.kinds["Semicolon"]
	x.loopCands = func(x *Exec, lc *LoopCtx) []*Term {
		out := m.cands(x, lc)
		var c *Term
		if c = m.loopC(lc); c == nil {
			c = m.cur(lc.st0)
		}
		var bools []*Term
		for _, s := range lc.vars {
			if s.Op == "sym" && s.Sort == SBool && s != lc.entry[s] {
				bools = append(bools, s)
			}
		}
		for _, s := range lc.vars {
			if s.Op != "sym" || s.Sort != SSeq || s == lc.entry[s] {
				continue
			}
			ge, em := Le(One, Len(s)), Eq(Len(s), Zero)
			for _, d := range []*Term{m.c0} {
				ps := []*Term{dZ(semi, s, d, c), dL(semi, s, d, c), dT(semi, s, d, c)}
				out = append(out, ps...)
				for _, b := range bools {
					for _, g := range []*Term{b, Not(b)} {
						out = append(out, Or(g, ge), Or(g, em))
						for _, p := range ps {
							out = append(out, Or(g, p))
						}
					}
				}
			}
		}
		return out
	}
	fn := fname(f)
	nOK, nErr := 0, 0
	for _, e := range x.Run(f, []*Term{m.p}, nil, st, nil) {
		if !x.feasible(e.st, True) {
			continue
		}
		if e.kind == exPanic {
			x.Ob(fn, "panic-contract", "ParseSQL does not panic", false, "panics"+pathStr(e.st), f.Pos())
			continue
		}
		for _, s := range m.splitErr(e.st, e.vals[1]) {
			if x.Prove(s, Eq(e.vals[1], Nil)) {
				nOK++
				ok := m.proveList(s, "⊢T", semi, e.vals[0], m.c0, m.M, 0) || m.proveList(s, "⊢Z", semi, e.vals[0], m.c0, m.M, 0)
				why := ""
				if !ok {
					why = "statements " + e.vals[0].String() + pathStr(s) + ghStr(s)
				}
				m.leaves(&Frame{fn: f}, s, "the result", f.Pos(), e.vals[0])
				x.Ob(fn, "script", "success means that the text is the statements returned, separated by single semicolons, with an optional last one", ok, why, f.Pos())
				continue
			}
			nErr++
			ok := x.Prove(s, Not(Eq(e.vals[1], Nil)))
			x.Ob(fn, "panic-contract", "ParseSQL returns nil with an error", ok && x.Prove(s, Eq(e.vals[0], NilSeq)), e.vals[0].String()+pathStr(s), f.Pos())
			ok = m.scriptError(s)
			why := ""
			if !ok {
				why = "the error is returned although no part fails to parse and nothing stands where a semicolon should be" + pathStr(s) + ghStr(s)
			}
			x.Ob(fn, "script", "an error means that a part is no statement, or that no semicolon follows it", ok, why, f.Pos())
		}
	}
	x.Ob(fn, "script", "ParseSQL can succeed and can fail", nOK > 0 && nErr > 0, "", f.Pos())
	m.rep.done(x, f)
}

func ghStr(st *State) string {
	s := ""
	for _, g := range st.gh {
		s += "\n    ghost " + g.String()
	}
	return s
}

// scriptError: ParseStatement failed at the start of a part, or a part is followed by something
// else than a semicolon.
func (m *parseModel) scriptError(st *State) bool {
	semi := m.kinds["Semicolon"]
	starts := []*Term{m.c0}
	var stops []*Term
	for _, n := range []string{"⊢L", "⊢Z", "⊢T"} {
		for _, f := range m.preds(st, n) {
			if f.A[0] != semi || !m.eqPos(st, f.A[2], m.c0) {
				continue
			}
			starts = append(starts, m.ends(st, semi, f.A[1], m.c0)...)
			if n == "⊢L" || n == "⊢Z" && m.x.Prove(st, Le(One, Len(f.A[1]))) {
				stops = append(stops, f.A[3])
			}
			// one more statement on top of the list
			for _, p := range m.ends(st, semi, f.A[1], m.c0) {
				for _, g := range m.preds(st, "⊢N") {
					if m.eqPos(st, g.A[1], p) {
						stops = append(stops, g.A[2])
						if m.sepAt(st, semi, g.A[2]) {
							starts = append(starts, Add(g.A[2], One))
						}
					}
				}
			}
		}
	}
	for _, g := range m.preds(st, "⊢N") {
		if m.eqPos(st, g.A[1], m.c0) {
			stops = append(stops, g.A[2])
			if m.sepAt(st, semi, g.A[2]) {
				starts = append(starts, Add(g.A[2], One))
			}
		}
	}
	for _, d := range starts {
		if m.x.Prove(st, Eq(UF("out:ParseStatement", SInt, d), One)) {
			return true
		}
	}
	for _, d := range stops {
		if m.x.Prove(st, And(Lt(d, m.M), Not(Eq(m.kind(st, m.tok(st, d)), semi)))) {
			return true
		}
	}
	return false
}

// ---------- ParseFile ----------

func (m *parseModel) checkFile() {
	f := m.P.funcs[pname("ParseFile")]
	if f == nil {
		m.rep.obs = append(m.rep.obs, &Obligation{Fn: pname("ParseFile"), Kind: "verifier", Detail: "ParseFile exists", Why: "missing"})
		return
	}
	m.contracts[pname("ParseSQL")] = nil
	base := m.model
	x, st := m.entry(f)
	x.onStore, x.onBranch = m.frame, nil // what becomes of the comments is not part of the tree
	list := FreshT("stmts", types.NewSlice(m.P.pkgs["sqlast"].Type("Stmt").Type()))
	m.setClean(list)
	called := 0
	x.model = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn != nil && fname(ci.fn) == pname("ParseSQL") && ci.method == "" {
			called++
			x.Ob(fname(f), "precondition", "ParseSQL is called once, on the parser, before anything is read", ci.args[0] == m.p && m.cur(st) == m.c0, "", ci.instrPos())
			bad := st.clone()
			e := Fresh("err", SRef, nil)
			bad.assume(Not(Eq(e, Nil)))
			m.setC(bad, m.anyC(bad))
			m.setC(st, m.M)
			ca, cT := fieldOf(m.p, m.pT, "comments")
			mp := x.load(st, ca, cT)
			for _, s := range []*State{st, bad} {
				s.mem[UF("mapver", SRef, mp)] = Fresh("comments", SStruct, nil)
			}
			return []Outcome{{st: st, vals: []*Term{list, Nil}}, {st: bad, vals: []*Term{NilSeq, e}}}, true
		}
		if ci.fn != nil && ci.fn.String() == "sort.Slice" {
			x.sortModel(fr, st, ci)
			return []Outcome{{st: st}}, true
		}
		return base(x, fr, st, ci)
	}
	h := x.loadHook
	x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
		if addr.Op == "addr.f" && addr.S == "sqlast.CommentGroup.List" && !isFreshRoot(addr) {
			st.assume(Le(One, Len(mk("fld", sortOf(t), addr.S, addr.I, t, addr.A[0]))))
		}
		return h(x, st, addr, t)
	}
	x.onRangeVal = func(st *State, ok, v *Term) { // groups in the comment map are not nil (see mapUpdate)
		if v.Sort == SRef {
			st.assume(Implies(ok, Not(Eq(v, Nil))))
		}
	}
	fn := fname(f)
	fT := m.P.pkgs["sqlast"].Type("File").Type()
	n := 0
	for _, e := range x.Run(f, []*Term{m.p}, nil, st, nil) {
		if !x.feasible(e.st, True) {
			continue
		}
		if e.kind == exPanic {
			x.Ob(fn, "panic-contract", "ParseFile does not panic", false, "panics"+pathStr(e.st), f.Pos())
			continue
		}
		if x.Prove(e.st, Eq(e.vals[1], Nil)) {
			n++
			ok := x.Prove(e.st, Not(Eq(e.vals[0], Nil)))
			m.leaves(&Frame{fn: f}, e.st, "the result", f.Pos(), e.vals[0])
			x.Ob(fn, "panic-contract", "ParseFile returns a file without an error", ok, e.vals[0].String(), f.Pos())
			ok = ok && m.field(e.st, e.vals[0], fT, "Stmts") == list
			x.Ob(fn, "script", "the file's statements are those of ParseSQL", ok, m.field(e.st, e.vals[0], fT, "Stmts").String(), f.Pos())
			continue
		}
		ok := x.Prove(e.st, Not(Eq(e.vals[1], Nil))) && x.Prove(e.st, Eq(e.vals[0], Nil))
		x.Ob(fn, "panic-contract", "ParseFile returns nil with an error", ok, e.vals[0].String(), f.Pos())
		bad := false
		for _, c := range e.st.pc {
			if c.Op == "not" && len(c.A[0].A) == 2 && (c.A[0].A[0].Op == "sym" && strings.HasPrefix(c.A[0].A[0].S, "err#") || c.A[0].A[1].Op == "sym" && strings.HasPrefix(c.A[0].A[1].S, "err#")) {
				bad = true
			}
		}
		x.Ob(fn, "script", "ParseFile fails only when ParseSQL does", bad, pathStr(e.st), f.Pos())
	}
	x.Ob(fn, "script", "ParseFile can succeed", n > 0 && called > 0, "", f.Pos())
	m.rep.done(x, f)
}

// sortModel: sort.Slice calls its function with indices of the list only; the order of the list
// afterwards is not modelled.
func (x *Exec) sortModel(fr *Frame, st *State, ci *CallInfo) {
	s := ci.args[0]
	if s.Op == "box" {
		s = s.A[0]
	}
	t := st.clone()
	i, j := Fresh("i", SInt, types.Typ[types.Int]), Fresh("j", SInt, types.Typ[types.Int])
	for _, k := range []*Term{i, j} {
		t.assume(Le(Zero, k))
		t.assume(Lt(k, Len(s)))
	}
	for _, o := range x.call(fr, t, &CallInfo{instr: ci.instr, dyn: ci.args[1], args: []*Term{i, j}, name: "dynamic"}) {
		if o.pval != nil {
			x.Ob(fname(x.top), "panic-contract", "the comparison function does not panic", false, "panics"+pathStr(o.st), ci.instrPos())
		}
	}
}

// ---------- constructors ----------

// ⊢P(list,src,n): the elements of list are the first n elements of src, where delimited
// identifiers have been replaced by equal ones with an empty keyword.
func dP(list, src, n *Term) *Term { return UF("⊢P", SBool, list, src, n) }

func (m *parseModel) provePlain(st *State, g *Term) bool {
	s, src, n := g.A[0], g.A[1], g.A[2]
	if st.pcs[g] {
		return true
	}
	if isEmptySeq(s) {
		return m.eqPos(st, n, Zero)
	}
	for _, f := range m.preds(st, "⊢P") {
		if f.A[0] == s && f.A[1] == src && m.eqPos(st, f.A[2], n) {
			return true
		}
	}
	last, rest := splitLast(s)
	if last == nil {
		return false
	}
	i := Sub(n, One)
	if !m.provePlain(st, dP(rest, src, i)) {
		return false
	}
	return m.plainOf(st, last, At(src, i, SRef, types.NewPointer(m.tokT)))
}

// plainOf: v is t, or, where t is a delimited identifier, a copy of t with an empty keyword.
func (m *parseModel) plainOf(st *State, v, t *Term) bool {
	x := m.x
	isW := m.isWord(st, t)
	quoted := And(isW, Not(Eq(m.field(st, m.word(st, t), m.wordT, "QuoteStyle"), Zero)))
	if x.Prove(st, Eq(v, t)) {
		return x.Prove(st, Not(quoted))
	}
	if !x.Prove(st, quoted) || v.Op != "alloc" {
		return false
	}
	for _, n := range []string{"Kind", "From", "To"} {
		if !x.Prove(st, Eq(m.field(st, v, m.tokT, n), m.field(st, t, m.tokT, n))) {
			return false
		}
	}
	val := m.field(st, v, m.tokT, "Value")
	if val.Op != "box" || val.S != tstr(types.NewPointer(m.wordT)) || val.A[0].Op != "alloc" {
		return false
	}
	w, w0 := val.A[0], m.word(st, t)
	return x.Prove(st, And(Eq(m.field(st, w, m.wordT, "Value"), m.field(st, w0, m.wordT, "Value")),
		Eq(m.field(st, w, m.wordT, "QuoteStyle"), m.field(st, w0, m.wordT, "QuoteStyle")), Eq(m.field(st, w, m.wordT, "Keyword"), Str(""))))
}

// checkNew: the constructors give a parser at the first token of the plain tokens of the text,
// and options change the comment mode only.
func (m *parseModel) checkNew() {
	pk := m.P.pkgs[parserPkg]
	for _, mb := range []string{"NewParser", "NewParserWithOptions"} {
		if f := pk.Func(mb); f != nil {
			m.newOne(f)
		} else {
			m.rep.obs = append(m.rep.obs, &Obligation{Fn: mb, Kind: "verifier", Detail: mb + " exists", Why: "missing"})
		}
	}
	if f := m.P.funcs[pname("SetTokens")]; f != nil {
		m.newOne(f)
	}
	for n, mb := range pk.Members {
		f, ok := mb.(*ssa.Function)
		if !ok || !token.IsExported(n) || f.Signature.Results().Len() != 1 || tstr(f.Signature.Results().At(0).Type()) != parserPkg+".ParserOption" {
			continue
		}
		m.optionOne(f)
	}
}

func (m *parseModel) newExec(f *ssa.Function) (*Exec, *State, *Term) {
	x := m.rep.exec(m.P, m.prop)
	m.x, m.self, m.level = x, f, 1
	x.top = f
	x.checkPanics = true
	x.prover = m.prover
	m.toks = Sym("raw", SSeq, types.NewSlice(types.NewPointer(m.tokT)))
	raw := m.toks
	x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
		if addr.Op == "addr.i" && addr.A[0] == raw {
			mark := UF("tokfacts", SBool, addr)
			if !st.pcs[mark] {
				st.pcs[mark] = true
				tk := At(raw, addr.A[1], SRef, types.NewPointer(m.tokT))
				st.assume(Not(Eq(tk, Nil)))
				st.assume(Implies(m.isWord(st, tk), Not(Eq(m.word(st, tk), Nil))))
			}
		}
		return nil
	}
	x.loopCands = func(x *Exec, lc *LoopCtx) []*Term {
		var out []*Term
		var ints, bools, refs []*Term
		for _, s := range lc.vars {
			if s.Op != "sym" || s == lc.entry[s] {
				continue
			}
			switch s.Sort {
			case SInt:
				ints = append(ints, s, Add(s, One))
				out = append(out, Le(Int(-1), s), Le(Zero, s))
			case SBool:
				bools = append(bools, s)
			case SRef:
				refs = append(refs, s)
			}
		}
		for _, s := range lc.vars {
			if s.Op == "sym" && s.Sort == SSeq && s != lc.entry[s] {
				for _, n := range ints {
					out = append(out, dP(s, raw, n), Eq(Len(s), n), Le(n, Len(raw)))
				}
			}
		}
		for _, b := range bools {
			for _, r := range refs {
				out = append(out, Or(Not(b), Not(Eq(r, Nil))))
			}
		}
		return out
	}
	x.onLoop = func(x *Exec, fr *Frame, lc *LoopCtx, head *State, backs []Exit) {
		ok := true
		for _, e := range backs {
			ok = ok && countsUp(x, lc, e, lc.lp, fr)
		}
		x.Ob(fname(x.top), "termination", "the loops of "+fname(fr.fn)+" count towards a bound", ok, "", lc.lp.header.Instrs[0].Pos())
	}
	st := newState()
	return x, st, raw
}

func (m *parseModel) newOne(f *ssa.Function) {
	x, st, raw := m.newExec(f)
	fn := fname(f)
	failed := Fresh("err", SRef, nil)
	tokenized := false
	x.model = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
		n := ""
		if ci.fn != nil {
			n = fname(ci.fn)
		}
		switch {
		case strings.HasPrefix(n, "sqltoken.NewTokenizer"):
			return []Outcome{{st: st, vals: []*Term{mk("uf", SRef, "tokenizer", 0, ci.fn.Signature.Results().At(0).Type(), ci.args[0])}}}, true
		case n == "(*sqltoken.Tokenizer).Tokenize":
			tokenized = len(f.Params) > 0 && ci.args[0].Op == "uf" && ci.args[0].A[0].Op == "sym" && ci.args[0].A[0].S == "arg."+f.Params[0].Name()
			bad := st.clone()
			bad.assume(Not(Eq(failed, Nil)))
			return []Outcome{{st: st, vals: []*Term{raw, Nil}}, {st: bad, vals: []*Term{NilSeq, failed}}}, true
		case ci.fn == nil && ci.dyn != nil && len(ci.args) == 1 && ci.sig != nil && ci.sig.Results().Len() == 0 && tstr(ci.sig.Params().At(0).Type()) == "*"+parserPkg+".Parser":
			// an option: see optionOne
			p := ci.args[0]
			pc, pcT := fieldOf(p, m.pT, "parseComment")
			cm, cmT := fieldOf(p, m.pT, "comments")
			st.mem[pc] = FreshT("parseComment", pcT)
			st.mem[cm] = FreshT("comments", cmT)
			st.assume(Implies(st.mem[pc], Not(Eq(st.mem[cm], Nil))))
			return []Outcome{{st: st}}, true
		}
		return nil, false
	}
	var args []*Term
	for _, p := range f.Params {
		a := Sym("arg."+p.Name(), sortOf(p.Type()), p.Type())
		if tstr(p.Type()) == "[]*sqltoken.Token" {
			a = raw
		}
		if tstr(p.Type()) == "*"+parserPkg+".Parser" {
			a = m.p
			st.assume(Not(Eq(a, Nil)))
		}
		if strings.HasSuffix(tstr(p.Type()), "ParserOption") {
			h := x.loadHook
			x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
				if addr.Op == "addr.i" && addr.A[0] == a {
					st.assume(Not(Eq(At(a, addr.A[1], SRef, t), Nil)))
				}
				return h(x, st, addr, t)
			}
		}
		args = append(args, a)
	}
	n := 0
	for _, e := range x.Run(f, args, nil, st, nil) {
		if !x.feasible(e.st, True) {
			continue
		}
		if e.kind == exPanic {
			x.Ob(fn, "panic-contract", f.Name()+" does not panic", false, "panics"+pathStr(e.st), f.Pos())
			continue
		}
		p := m.p
		if len(e.vals) > 0 {
			p = e.vals[0]
		}
		if len(e.vals) == 2 && !x.Prove(e.st, Eq(e.vals[1], Nil)) {
			ok := x.Prove(e.st, Not(Eq(e.vals[1], Nil))) && x.Prove(e.st, Eq(p, Nil)) && e.st.pcs[Not(Eq(failed, Nil))]
			x.Ob(fn, "constructor", f.Name()+" fails exactly when the text has no tokens, and returns nil then", ok, p.String()+pathStr(e.st), f.Pos())
			continue
		}
		n++
		why := ""
		if !x.Prove(e.st, Not(Eq(p, Nil))) {
			why = "no parser"
		} else {
			toks := m.field(e.st, p, m.pT, "tokens")
			want := f.Name() != "NewParserWithOptions"
			if want && !m.provePlain(e.st, dP(toks, raw, Len(raw))) {
				why = "the parser's tokens are not the text's: " + toks.String() + pathStr(e.st) + ghStr(e.st)
			}
			if !want && !isEmptySeq(toks) {
				why = "tokens from nowhere"
			}
			if p != m.p && m.field(e.st, p, m.pT, "index") != Zero {
				why = "the parser does not start at the first token"
			}
			if p != m.p && !x.Prove(e.st, Implies(m.field(e.st, p, m.pT, "parseComment"), Not(Eq(m.field(e.st, p, m.pT, "comments"), Nil)))) {
				why = "comments are collected without a map for them"
			}
			if f.Name() == "NewParser" && !tokenized {
				why = "the tokens are not those of the source"
			}
		}
		x.Ob(fn, "constructor", f.Name()+": the parser stands before the first of the text's tokens, delimited identifiers being no keywords", why == "", why, f.Pos())
	}
	x.Ob(fn, "constructor", f.Name()+" returns", n > 0, "", f.Pos())
	m.rep.done(x, f)
}

func (m *parseModel) optionOne(f *ssa.Function) {
	x, st, _ := m.newExec(f)
	var args []*Term
	for _, p := range f.Params {
		args = append(args, Sym("arg."+p.Name(), sortOf(p.Type()), p.Type()))
	}
	fn := fname(f)
	for _, e := range x.Run(f, args, nil, st, nil) {
		if e.kind == exPanic || e.vals[0].Op != "closure" && e.vals[0].Op != "func" {
			x.Ob(fn, "constructor", "the option is a function", false, "", f.Pos())
			continue
		}
		fr := &Frame{fn: f}
		s := e.st.clone()
		s.assume(Not(Eq(m.p, Nil)))
		ta, tT := fieldOf(m.p, m.pT, "tokens")
		ia, iT := fieldOf(m.p, m.pT, "index")
		pc, pcT := fieldOf(m.p, m.pT, "parseComment")
		cm, cmT := fieldOf(m.p, m.pT, "comments")
		s.assume(Implies(x.load(s, pc, pcT), Not(Eq(x.load(s, cm, cmT), Nil))))
		t0, i0 := x.load(s, ta, tT), x.load(s, ia, iT)
		c0, pc0 := x.load(s, cm, cmT), x.load(s, pc, pcT)
		for _, o := range x.call(fr, s, &CallInfo{dyn: e.vals[0], args: []*Term{m.p}, name: "dynamic"}) {
			if o.pval != nil {
				x.Ob(fn, "panic-contract", "the option does not panic", false, "", f.Pos())
				continue
			}
			c := x.load(o.st, cm, cmT)
			ok := x.load(o.st, ta, tT) == t0 && x.load(o.st, ia, iT) == i0 && (nonNil(c) || x.Prove(o.st, Implies(x.load(o.st, pc, pcT), Not(Eq(c, Nil)))))
			x.Ob(fn, "constructor", "the option changes the comment mode only, and sets up the comment map", ok, pathStr(o.st), f.Pos())
			if m.prop == "C13" {
				ok := c == c0 && x.load(o.st, pc, pcT) == pc0
				if ver := o.st.mem[UF("mapver", SRef, c)]; !ok && c.Op == "alloc" && ver != nil {
					ok = ver.Op == "uf" && ver.S == "emptymap"
				}
				if f.Name() == "ParseComment" {
					ok = ok && x.Prove(o.st, x.load(o.st, pc, pcT))
				}
				x.Ob(fn, "comments", "the option starts comment collection with a new, empty map, or leaves it alone", ok, c.String()+pathStr(o.st), f.Pos())
			}
		}
	}
	m.rep.done(x, f)
}

// nodeCells: no node has a field of type pointer to interface, pointer or slice (see localCell).
func (m *parseModel) nodeCells() {
	bad := ""
	for n, mb := range m.P.pkgs["sqlast"].Members {
		t, ok := mb.(*ssa.Type)
		if !ok {
			continue
		}
		s, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			for {
				if sl, ok := ft.Underlying().(*types.Slice); ok {
					ft = sl.Elem()
					continue
				}
				break
			}
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				switch p.Elem().Underlying().(type) {
				case *types.Interface, *types.Pointer, *types.Slice:
					bad += n + "." + s.Field(i).Name() + " "
				}
			}
		}
	}
	m.rep.obs = append(m.rep.obs, &Obligation{Prop: m.prop, Fn: "sqlast", Kind: "dependence", Detail: "no node field is a pointer to an interface, pointer or slice", OK: bad == "", Why: bad})
}

// checkLex: the tokenizer, for C03 and C04.
func (m *parseModel) checkLex() {
	P, rep := m.P, m.rep
	keep := map[string]bool{"unsupported": true, "loop": true, "verifier": true, "reachable": true}
	want := map[string]bool{m.prop: true}
	switch m.prop {
	case "C03", "L2":
		for k := range panicKinds {
			keep[k] = true
		}
		keep["shape"] = true
		want["C03"] = true
	}
	switch m.prop {
	case "C04", "L2":
		keep["termination"], keep["post:progress"] = true, true
		want["C04"] = true
	}
	old := rep.keep
	rep.keep = func(k string) bool { return keep[k] }
	defer func() { rep.keep = old }()
	checkDialects(P, rep)
	checkNext(P, rep, want)
	checkMakeKeyword(P, rep)
	checkScan(P, rep)
	checkTokenize(P, rep, want)
}
