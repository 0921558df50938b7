package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// C02: operators group by precedence and to the left.
//
// For an expression n, Lm(n) is the least binding strength of the operators on its left edge (those
// whose left operand starts where n starts), Rm(n) of those on its right edge, unbounded if there
// are none. A tree groups as stated iff at every operator node of strength q
//     Rm(left operand) >= q   and   Lm(right operand) > q.
// Lm and Rm of a node made in the function are computed from its operands; of other values they
// are uninterpreted, with the facts of the callee contracts:
//     parseSubexpr(p):  Lm(res) > p,  prec(S(end)) <= p,  prec(S(end)) <= Rm(res)
//     parsePrefix():    Lm(res) unbounded,  prec(S(end)) <= Rm(res)
// where prec(t) is the strength of t as an infix operator, 0 if it is none. Set operations are
// treated in the same way by parseQueryBody.

const unbounded = 1000000

// strengths of the operators, as stated by the property
var opStrength = map[string]int64{"Or": 5, "And": 10, "Not": 15, "Eq": 20, "NotEq": 20, "Lt": 20, "LtEq": 20, "Gt": 20, "GtEq": 20, "Like": 20, "NotLike": 20,
	"Plus": 30, "Minus": 30, "Multiply": 40, "Divide": 40, "Modulus": 40}

// infix strengths of tokens
var keyStrength = [][2]interface{}{{"OR", 5}, {"AND", 10}, {"IS", 17}, {"NOT", 20}, {"IN", 20}, {"BETWEEN", 20}, {"LIKE", 20}}
var kindStrength = [][2]interface{}{{"Eq", 20}, {"Neq", 20}, {"Lt", 20}, {"LtEq", 20}, {"Gt", 20}, {"GtEq", 20}, {"Plus", 30}, {"Minus", 30}, {"Mult", 40}, {"Div", 40}, {"Mod", 40}, {"DoubleColon", 50}}
var setStrength = [][2]interface{}{{"UNION", 10}, {"EXCEPT", 10}, {"INTERSECT", 20}}

// fields of the nodes with operands at an edge
var groupNodes = map[string]bool{"BinaryExpr": true, "UnaryExpr": true, "IsNull": true, "IsNotNull": true, "InList": true, "InSubQuery": true, "Between": true, "Cast": true, "SetOperationExpr": true}

func (m *parseModel) groupType(T types.Type) string {
	s := tstr(T)
	if strings.HasPrefix(s, "sqlast.") && groupNodes[s[7:]] {
		return s[7:]
	}
	return ""
}

func (m *parseModel) precOf(st *State, tok *Term, set bool) *Term {
	r := Zero
	if set {
		for _, e := range setStrength {
			r = Ite(Eq(keyOf(tok), Str(e[0].(string))), Int(int64(e[1].(int))), r)
		}
		return r
	}
	for _, e := range keyStrength {
		r = Ite(Eq(keyOf(tok), Str(e[0].(string))), Int(int64(e[1].(int))), r)
	}
	for _, e := range kindStrength {
		r = Ite(Eq(m.kind(st, tok), m.kinds[e[0].(string)]), Int(int64(e[1].(int))), r)
	}
	return r
}

// prec: strength of the token at position c.
func (m *parseModel) prec(st *State, c *Term, set bool) *Term {
	return m.precOf(st, m.tok(st, c), set)
}

func minT(a, b *Term) *Term {
	if a.Op == "int" && a.I >= unbounded {
		return b
	}
	if b.Op == "int" && b.I >= unbounded {
		return a
	}
	if a == b {
		return a
	}
	return Ite(Le(a, b), a, b)
}

// edge gives Lm or Rm of v.
func (m *parseModel) edge(st *State, side string, v *Term, d int) *Term {
	inf := Int(unbounded)
	for v.Op == "box" && v.A[0].Op == "unbox" && v.A[0].S == v.S {
		v = v.A[0].A[0]
	}
	if v.Op == "ite" {
		return Ite(v.A[0], m.edge(st, side, v.A[1], d), m.edge(st, side, v.A[2], d))
	}
	if v.Op != "box" || d > 30 {
		return UF(side, SInt, v)
	}
	p, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		if v.T == nil {
			return UF(side, SInt, v)
		}
		return inf
	}
	n := m.groupType(p.Elem())
	if n == "" {
		return inf
	}
	a := v.A[0]
	if a.Op != "alloc" {
		return UF(side, SInt, v)
	}
	l, r, q := m.operands(st, a, n)
	if side == "Lm" {
		if l == nil || m.bracketed(st, l) {
			return inf
		}
		return minT(q, m.edge(st, side, l, d+1))
	}
	if r == nil {
		return inf
	}
	return minT(q, m.edge(st, side, r, d+1))
}

// bracketed: v was parsed behind an opening parenthesis.
func (m *parseModel) bracketed(st *State, v *Term) bool {
	if v.Op == "uf" && strings.HasPrefix(v.S, "res:") && len(v.A) > 0 {
		return m.x.Prove(st, Eq(m.kind(st, m.tok(st, Sub(v.A[0], One))), m.kinds["LParen"]))
	}
	return false
}

// operands: the operands at the left and the right edge (nil: closed) and the strength of the
// operator node at a.
func (m *parseModel) operands(st *State, a *Term, n string) (l, r, q *Term) {
	get := func(f string) *Term {
		if i, ft := structFieldOpt(a.T, f); i >= 0 {
			return m.x.load(st, fieldAddr(a, a.T, i), ft)
		}
		return Fresh("nofield", SRef, nil)
	}
	opType := func() *Term {
		o := get("Op")
		oT := m.P.pkgs["sqlast"].Type("Operator").Type()
		t := m.field(st, o, oT, "Type")
		r := Fresh("strength", SInt, nil)
		for k, s := range opStrength {
			if c := m.P.pkgs["sqlast"].Const(k); c != nil && c.Value.Value != nil && c.Value.Value.Kind() == constant.Int {
				r = Ite(Eq(t, constTerm(c.Value)), Int(s), r)
			}
		}
		return st.eval(r)
	}
	switch n {
	case "BinaryExpr":
		return get("Left"), get("Right"), opType()
	case "UnaryExpr":
		return nil, get("Expr"), opType()
	case "IsNull", "IsNotNull":
		return get("X"), nil, Int(17)
	case "InList", "InSubQuery":
		return get("Expr"), nil, Int(20)
	case "Between":
		return get("Expr"), get("High"), Int(20)
	case "Cast":
		return get("Expr"), nil, Int(50)
	case "SetOperationExpr":
		o := get("Op")
		q := Fresh("strength", SInt, nil)
		for o.Op == "box" && o.A[0].Op == "unbox" {
			o = o.A[0].A[0]
		}
		for _, k := range [][2]interface{}{{"UnionOperator", 10}, {"ExceptOperator", 10}, {"IntersectOperator", 20}} {
			pt := types.NewPointer(m.P.pkgs["sqlast"].Type(k[0].(string)).Type())
			q = Ite(IsType(o, tstr(pt), pt), Int(int64(k[1].(int))), q)
		}
		return get("Left"), get("Right"), st.eval(q)
	}
	return nil, nil, Int(0)
}

// grouping checks the operator nodes that the terms lead to.
func (m *parseModel) grouping(fr *Frame, st *State, what string, pos token.Pos, roots ...*Term) {
	x := m.x
	if x.mute > 0 || m.level != 2 || !x.wants("grouping") {
		return
	}
	for _, a := range reach(st, roots...) {
		if a.T == nil {
			continue
		}
		n := m.groupType(a.T)
		if n == "" {
			continue
		}
		l, r, q := m.operands(st, a, n)
		why := ""
		if l != nil && !(n == "Cast" && m.bracketed(st, l)) && !x.Prove(st, Le(q, m.edge(st, "Rm", l, 0))) {
			why = "the left operand " + l.String() + " may hold an operator on its right edge that binds less than " + q.String()
		}
		if r != nil && !x.Prove(st, Lt(q, m.edge(st, "Lm", r, 0))) {
			why = "the right operand " + r.String() + " may hold an operator on its left edge that does not bind more than " + q.String()
		}
		if n == "Between" {
			i, ft := structFieldOpt(a.T, "Low")
			if i >= 0 {
				low := x.load(st, fieldAddr(a, a.T, i), ft)
				if !x.Prove(st, Lt(q, m.edge(st, "Lm", low, 0))) {
					why = "the lower bound " + low.String() + " may hold an operator that does not bind more than BETWEEN"
				}
			}
		}
		if why != "" {
			why += pathStr(st)
		}
		x.Ob(fname(x.top), "grouping", "the operands of the "+n+" in "+what+" of "+fname(fr.fn)+" bind tighter than its operator, on the left at least as tight", why == "", why, pos)
	}
}

// groupKind: what the contract of k says about the edges of its result.
//
//	"climb": Lm > p, prec(S(end)) <= p and <= Rm;  "open": Lm > p;  "prefix": Lm unbounded,
//	prec(S(end)) <= Rm;  "closed": both unbounded; "": nothing
func (m *parseModel) groupKind(k *pContract) string {
	if k.list {
		return ""
	}
	switch k.name {
	case "parseSubexpr", "ParseExpr", "parseQueryBody":
		return "climb"
	case "parseDefaultExpr":
		return "open"
	case "parsePrefix":
		return "prefix"
	}
	T := k.T
	if _, ok := T.Underlying().(*types.Interface); ok && tstr(T) == "sqlast.Node" {
		return "closed"
	}
	if p, ok := T.Underlying().(*types.Pointer); ok && m.groupType(p.Elem()) != "" {
		return "closed"
	}
	return ""
}

func (m *parseModel) groupArg(k *pContract, args []*Term) *Term {
	for i := 0; i < k.fn.Signature.Params().Len(); i++ {
		if b, ok := k.fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return args[i]
		}
	}
	return Zero
}

// groupPre: a precedence is the strength of an operator, or 0.
func (m *parseModel) groupPre(k *pContract, args []*Term) *Term {
	if kind := m.groupKind(k); kind == "climb" || kind == "open" {
		p := m.groupArg(k, args)
		return And(Le(Zero, p), Le(p, Int(100)))
	}
	return True
}

func (m *parseModel) groupFormulas(st *State, k *pContract, res *Term, args []*Term, end *Term) (fs []*Term, what []string) {
	kind := m.groupKind(k)
	if kind == "" {
		return
	}
	v := asNodeOf(res, k.T)
	set := k.name == "parseQueryBody"
	lm, rm := m.edge(st, "Lm", v, 0), m.edge(st, "Rm", v, 0)
	p := m.groupArg(k, args)
	add := func(w string, f *Term) { fs, what = append(fs, f), append(what, w) }
	switch kind {
	case "climb", "open":
		add("operators on the left edge of the result bind more than the precedence asked for", Lt(p, lm))
	case "prefix":
		add("the result has no operator that is open to the left", Le(Int(unbounded), lm))
	case "closed":
		add("the result has no operator open to the left", Le(Int(unbounded), lm))
		add("the result has no operator open to the right", Le(Int(unbounded), rm))
	}
	if kind == "climb" {
		add("the operator that follows binds no more than the precedence asked for", Le(m.prec(st, end, set), p))
	}
	if kind == "climb" || kind == "prefix" {
		add("the operator that follows binds no more than those on the right edge of the result", Le(m.prec(st, end, set), rm))
	}
	return
}

// groupFacts: the contract as callers see it.
func (m *parseModel) groupFacts(st *State, k *pContract, res *Term, args []*Term, end *Term) {
	if !m.x.wants("grouping") {
		return
	}
	fs, _ := m.groupFormulas(st, k, res, args, end)
	for _, f := range fs {
		st.assume(f)
	}
}

// groupPost checks the contract at a successful exit.
func (m *parseModel) groupPost(st *State, k *pContract, res *Term) {
	x := m.x
	if !x.wants("grouping") {
		return
	}
	fs, what := m.groupFormulas(st, k, res, m.args, m.cur(st))
	for i, f := range fs {
		ok := x.Prove(st, f)
		why := ""
		if !ok {
			why = f.String() + pathStr(st)
		}
		x.Ob(fname(k.fn), "grouping", k.name+": "+what[i], ok, why, k.fn.Pos())
	}
}

// groupCands: loop invariants about the edges of an expression that the loop builds.
func (m *parseModel) groupCands(lc *LoopCtx, c *Term) []*Term {
	if !m.x.wants("grouping") {
		return nil
	}
	var out []*Term
	k := m.contracts[fname(m.self)]
	for _, s := range lc.vars {
		if s.Op != "sym" || s == lc.entry[s] || s.Sort != SRef || s.T == nil {
			continue
		}
		if _, ok := s.T.Underlying().(*types.Interface); !ok || isErrT(s.T) {
			continue
		}
		rm, lm := UF("Rm", SInt, s), UF("Lm", SInt, s)
		for _, set := range []bool{false, true} {
			out = append(out, Le(m.prec(lc.st0, c, set), rm))
		}
		out = append(out, Le(Int(unbounded), lm), Le(Int(unbounded), rm))
		if k != nil {
			out = append(out, Lt(m.groupArg(k, m.args), lm))
		}
	}
	return out
}

// expandEdges replaces Lm and Rm of nodes made in the function by what they are.
func (m *parseModel) expandEdges(st *State, t *Term) *Term {
	sub := map[*Term]*Term{}
	t.walk(map[*Term]bool{}, func(u *Term) {
		if u.Op == "uf" && (u.S == "Lm" || u.S == "Rm") {
			if e := m.edge(st, u.S, u.A[0], 0); e != u {
				sub[u] = e
			}
		}
	})
	if len(sub) == 0 {
		return t
	}
	return Subst(t, sub)
}
