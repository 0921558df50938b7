package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the parse functions ("level 2").
//
// A parse function called at position c with extra arguments a
//   either returns a nil error, leaves the reader at end(c,a) with c < end <= M, and its result
//     is the non-nil node res(c,a) (the non-empty list res(c,a)), a derivation of the tokens
//     c .. end-1;
//   or returns a non-nil error;
//   or, unless it recovers, panics with one of the package's own panic values.
// Which of these happens, end and res are functions of c and a (and of the significant tokens):
// that is what C07 proves of every parse function.

type pContract struct {
	name string
	fn   *ssa.Function
	T    types.Type // of the result
	list bool
	sep  *Term // separator of a list; nil: the function's kind parameter
	opt  bool  // may be replaced by its body
}

// nodeFns: functions under the node contract; listFns: under the list contract with a separator.
var nodeFns = []string{"ParseStatement", "ParseDataType", "ParseExpr", "parseSubexpr", "parsePrefix", "parseQuery", "parseQueryBody",
	"parseTableReference", "parseTableFactor", "parseTableConstraints", "parseColumnDef", "parseCaseExpression", "parseCastExpression",
	"parseValue", "parseWindowFrameBound", "parseDefaultExpr", "parseCreate", "parseDelete", "parseInsert", "parseAlter", "parseUpdate", "parseDrop"}

var listFns = map[string]string{"parseSelectList": "Comma", "parseFromClause": "Comma", "parseExprList": "Comma", "parseCTEList": "Comma",
	"parseAssignments": "Comma", "parseOrderByExprList": "Comma", "parseListOfIds": ""}

var entryFns = map[string]bool{"ParseStatement": true, "ParseDataType": true, "ParseExpr": true}

func isErrT(t types.Type) bool { return tstr(t) == "error" }

// makeContracts: the contracts of the functions that exist with a fitting signature.
func (m *parseModel) makeContracts() {
	add := func(n string, list bool, sep string, opt bool) {
		f := m.P.funcs[pname(n)]
		if f == nil || m.dropped[n] {
			return
		}
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isErrT(rs.At(1).Type()) {
			return
		}
		T := rs.At(0).Type()
		if _, ok := T.Underlying().(*types.Slice); ok != list {
			return
		}
		k := &pContract{name: n, fn: f, T: T, list: list, opt: opt}
		if list {
			if sep != "" {
				k.sep = m.kinds[sep]
			} else {
				ok := false
				for i := 0; i < f.Signature.Params().Len(); i++ {
					ok = ok || tstr(f.Signature.Params().At(i).Type()) == "sqltoken.Kind"
				}
				if !ok {
					return
				}
			}
		}
		m.contracts[fname(f)] = k
	}
	for _, n := range nodeFns {
		add(n, false, "", !entryFns[n])
	}
	var ls []string
	for n := range listFns {
		ls = append(ls, n)
	}
	sort.Strings(ls)
	for _, n := range ls {
		add(n, true, listFns[n], true)
	}
	// whatever else is recursive
	for {
		f := m.cycle()
		if f == nil {
			return
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 && isErrT(rs.At(1).Type()) && rs.At(0).Type().Underlying() != nil {
			if _, ok := rs.At(0).Type().Underlying().(*types.Slice); !ok {
				m.contracts[fname(f)] = &pContract{name: f.Name(), fn: f, T: rs.At(0).Type()}
				continue
			}
		}
		m.missing[fname(f)] = f
		return
	}
}

func isParserMethod(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() != nil && tstr(f.Signature.Recv().Type()) == "*"+parserPkg+".Parser" && len(f.Blocks) > 0
}

// callees: the functions of the package that f (or a closure of it) calls.
func (m *parseModel) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	fs := append([]*ssa.Function{f}, f.AnonFuncs...)
	for _, g := range fs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && h.Pkg != nil && h.Pkg.Pkg.Name() == parserPkg && len(h.Blocks) > 0 {
						out = append(out, h)
					}
				}
			}
		}
	}
	return out
}

// cycle: a parser method on a call cycle that no contract cuts.
func (m *parseModel) cycle() *ssa.Function {
	state := map[*ssa.Function]int{}
	var hit *ssa.Function
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if m.contracts[fname(f)] != nil || m.missing[fname(f)] != nil {
			return false
		}
		if _, ok := m.isL1(f); ok {
			return false
		}
		switch state[f] {
		case 1:
			hit = f
			return true
		case 2:
			return false
		}
		state[f] = 1
		for _, g := range m.callees(f) {
			if rec(g) {
				return true
			}
		}
		state[f] = 2
		return false
	}
	for _, f := range m.P.allFuncs() {
		if isParserMethod(f) && rec(f) {
			return hit
		}
	}
	return nil
}

func (m *parseModel) sepOf(k *pContract, args []*Term) *Term {
	if k.sep != nil {
		return k.sep
	}
	for i := 0; i < k.fn.Signature.Params().Len(); i++ {
		if tstr(k.fn.Signature.Params().At(i).Type()) == "sqltoken.Kind" {
			return args[i]
		}
	}
	return Int(-1)
}

// asNodeOf: value v of type T as a node (interface value).
func asNodeOf(v *Term, T types.Type) *Term {
	if _, ok := T.Underlying().(*types.Interface); ok {
		return v
	}
	return Box(v, T)
}

func (m *parseModel) applyL2(fr *Frame, st *State, ci *CallInfo, k *pContract) []Outcome {
	c := m.cur(st)
	args := ci.args[1:]
	key := append([]*Term{c}, args...)
	m.called(st, k, c)
	for _, a := range args {
		if m.x.mute == 0 && m.x.wants("dependence") {
			m.dep(fr, "an argument of "+k.name, a, st, ci.instrPos())
		}
		m.spell(fr, "an argument of "+k.name, a, st, ci.instrPos())
	}
	if len(args) > 0 {
		m.cellDeps(fr, st, "an object at a call of "+k.name, ci.instrPos())
	}
	m.leaves(fr, st, "an argument of "+k.name, ci.instrPos(), args...)
	m.grouping(fr, st, "an argument of "+k.name, ci.instrPos(), args...)
	m.used[k.name] = true
	if k.list && k.sep == nil {
		m.x.require(fr, st, m.sepPre(k, args), "precondition", k.name+" in "+fname(fr.fn)+": the separator is the kind of a punctuation token", ci.instrPos())
	}
	if g := m.groupPre(k, args); g != True && m.x.wants("grouping") {
		m.x.require(fr, st, g, "precondition", k.name+" in "+fname(fr.fn)+": the precedence is a binding strength", ci.instrPos())
	}
	out := UF("out:"+k.name, SInt, key...)
	var outs []Outcome
	if e := st.eval(Eq(out, Zero)); e != False {
		s := st.clone()
		s.assume(Eq(out, Zero))
		end := UF("end:"+k.name, SInt, key...)
		res := mk("uf", sortOf(k.T), "res:"+k.name, 0, k.T, key...)
		s.assume(Lt(c, end))
		s.assume(Le(end, m.M))
		if m.semi != nil {
			s.assume(Or(Lt(m.semi, c), Le(end, m.semi)))
		}
		if k.list {
			s.assume(Le(One, Len(res)))
		} else {
			s.assume(Not(Eq(res, Nil)))
		}
		m.factsOf(s, k, res, args, c, end)
		m.setC(s, end)
		outs = append(outs, Outcome{st: s, vals: []*Term{res, Nil}})
	}
	if e := st.eval(Eq(out, One)); e != False {
		s := st.clone()
		s.assume(Eq(out, One))
		err := UF("err:"+k.name, SRef, key...)
		s.assume(Not(Eq(err, Nil)))
		end := UF("endE:"+k.name, SInt, key...)
		s.assume(Le(Zero, end))
		s.assume(Le(end, m.M))
		m.setC(s, end)
		res := m.unspecified(k.name, k.T)
		if entryFns[k.name] {
			res = zero(k.T)
		}
		outs = append(outs, Outcome{st: s, vals: []*Term{res, err}})
	}
	if e := st.eval(Eq(out, Int(2))); e != False && k.fn.Recover == nil && recovers(fr) {
		for _, pv := range m.panicVals(st) {
			s := st.clone()
			s.assume(Eq(out, Int(2)))
			m.setC(s, m.anyC(s))
			outs = append(outs, Outcome{st: s, pval: pv})
		}
	}
	return outs
}

// sepPre: the precondition of a list function with the separator as an argument.
func (m *parseModel) sepPre(k *pContract, args []*Term) *Term {
	s := m.sepOf(k, args)
	var cs []*Term
	for _, n := range []string{"SQLKeyword", "ILLEGAL", "Semicolon", "Whitespace", "Comment"} {
		cs = append(cs, Not(Eq(s, m.kinds[n])))
	}
	return And(cs...)
}

func (m *parseModel) unspecified(n string, T types.Type) *Term {
	t := FreshT("any:"+n, T)
	m.unspec[t] = true
	return t
}

// factsOf: what the contract says about the result.
func (m *parseModel) factsOf(st *State, k *pContract, res *Term, args []*Term, c, end *Term) {
	m.groupFacts(st, k, res, args, end)
	if m.deriv {
		m.derivFacts(st, k, res, c, end, args)
	}
	if m.facts != nil {
		m.facts(st, k, res, c, end)
	}
}

// assumeUnsigned assumes that a value of an unsigned type is not negative.
func assumeUnsigned(st *State, a *Term) {
	if a.T == nil {
		return
	}
	if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		st.assume(Le(Zero, a))
	}
}

// checkL2 verifies one parse function against its contract.
func (m *parseModel) checkL2(k *pContract) {
	f := k.fn
	x, st := m.setup(f, 2)
	m.hooks(x)
	args := []*Term{m.p}
	for i, p := range f.Params {
		if i > 0 {
			args = append(args, Sym("arg."+p.Name(), sortOf(p.Type()), p.Type()))
		}
	}
	m.args = args[1:]
	m.deriv = x.wants("derivation")
	for _, a := range m.args {
		m.setClean(a)
		assumeUnsigned(st, a)
	}
	if k.list && k.sep == nil {
		st.assume(m.sepPre(k, m.args))
	}
	if x.wants("grouping") {
		st.assume(m.groupPre(k, m.args))
	}
	if x.wants("locality") {
		m.semi = Sym("j", SInt, nil)
		st.assume(Le(m.c0, m.semi))
		st.assume(Le(m.semi, m.M))
		st.assume(Implies(Lt(m.semi, m.M), Eq(m.kind(st, m.tok(st, m.semi)), m.kinds["Semicolon"])))
	}
	fn := fname(f)
	n := 0
	for _, e := range x.Run(f, args, nil, st, nil) {
		if !x.feasible(e.st, True) {
			continue
		}
		if e.kind == exPanic {
			why := m.panicOK(e.st, e.pval)
			if f.Recover != nil {
				why = "a panic leaves the function"
			}
			if why != "" {
				why += pathStr(e.st)
			}
			x.Ob(fn, "panic-contract", "panics only with the package's own error values, and not out of an exported function", why == "", why, f.Pos())
			continue
		}
		for _, s := range m.splitErr(e.st, e.vals[1]) {
			if x.Prove(s, Eq(e.vals[1], Nil)) {
				n++
				m.okExit(k, s, e.vals[0])
			} else {
				m.errExit(k, s, e.vals)
			}
		}
	}
	if n == 0 {
		x.Ob(fn, "parse-contract", k.name+" can succeed", false, "no successful path", f.Pos())
	}
	m.rep.done(x, f)
}

// hooks: what is checked along every path of a parse function.
func (m *parseModel) hooks(x *Exec) {
	x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
		m.frame(x, fr, st, addr, val, pos)
		m.storeDep(x, fr, st, addr, val, pos)
		m.spellStore(fr, st, addr, val, pos)
		m.derivStore(fr, st, addr, val)
	}
	x.onBranch = m.branch
	x.onLoop = m.loopChecks
}

// splitErr: the cases nil and non-nil of an error value.
func (m *parseModel) splitErr(st *State, err *Term) []*State {
	e := st.eval(Eq(err, Nil))
	if e == True || e == False {
		return []*State{st}
	}
	if m.x.Prove(st, e) || m.x.Prove(st, Not(e)) {
		return []*State{st}
	}
	a, b := st.clone(), st.clone()
	a.assume(e)
	b.assume(Not(e))
	return []*State{a, b}
}

func (m *parseModel) okExit(k *pContract, st *State, res *Term) {
	x, f := m.x, k.fn
	c := m.cur(st)
	g := And(Lt(m.c0, c), Le(c, m.M))
	ok := x.Prove(st, g)
	why := ""
	if !ok {
		why = "position " + c.String() + pathStr(st)
	}
	x.Ob(fname(f), "parse-contract", k.name+" consumes at least one token when it succeeds", ok, why, f.Pos())
	if k.list {
		ok = x.Prove(st, Le(One, Len(res)))
	} else {
		ok = x.Prove(st, Not(Eq(res, Nil)))
		if ok && res.Op == "box" && res.A[0].Sort == SRef && !nonNil(res.A[0]) {
			ok = x.Prove(st, Not(Eq(res.A[0], Nil)))
		}
	}
	why = ""
	if !ok {
		why = res.String() + pathStr(st)
	}
	x.Ob(fname(f), "parse-contract", k.name+" returns a result when it succeeds", ok, why, f.Pos())
	if m.semi != nil {
		ok = x.Prove(st, Le(c, m.semi))
		why = ""
		if !ok {
			why = "position " + c.String() + " may lie behind the semicolon" + pathStr(st)
		}
		x.Ob(fname(f), "locality", k.name+" does not read past a semicolon when it succeeds", ok, why, f.Pos())
	}
	if m.deriv {
		m.derivExit(k, st, res, c)
	}
	m.leaves(&Frame{fn: f}, st, "the result", f.Pos(), res)
	m.grouping(&Frame{fn: f}, st, "the result", f.Pos(), res)
	m.groupPost(st, k, res)
	m.spell(&Frame{fn: f}, "the final position", c, st, f.Pos())
	if x.wants("dependence") {
		fr := &Frame{fn: f}
		m.dep(fr, "the result", res, st, f.Pos())
		m.cellDeps(fr, st, "a part of the result", f.Pos())
		m.dep(fr, "the final position", m.cur(st), st, f.Pos())
	}
}

func (m *parseModel) errExit(k *pContract, st *State, vals []*Term) {
	x, f := m.x, k.fn
	if !entryFns[k.name] {
		return
	}
	ok := x.Prove(st, Not(Eq(vals[1], Nil))) && x.Prove(st, Eq(vals[0], zero(k.T)))
	why := ""
	if !ok {
		why = vals[0].String() + ", " + vals[1].String() + pathStr(st)
	}
	x.Ob(fname(f), "parse-contract", k.name+" returns nil with an error", ok, why, f.Pos())
}

func (m *parseModel) cands2(x *Exec, lc *LoopCtx, c, centry *Term) []*Term {
	var out []*Term
	var bools, seqs []*Term
	for _, s := range lc.vars {
		if s.Op != "sym" || s == lc.entry[s] {
			continue
		}
		switch s.Sort {
		case SBool:
			bools = append(bools, s)
		case SSeq:
			seqs = append(seqs, s)
		}
	}
	if m.semi != nil {
		out = append(out, Le(c, m.semi))
		for _, b := range bools {
			out = append(out, Or(b, Le(c, m.semi)), Or(Not(b), Le(c, m.semi)))
		}
	}
	base := []*Term{Lt(centry, c)}
	for _, s := range seqs {
		base = append(base, Le(One, Len(s)))
	}
	for _, g := range base {
		for _, b := range bools {
			out = append(out, Or(b, g), Or(Not(b), g))
		}
		out = append(out, Or(Eq(c, centry), g))
	}
	return out
}
