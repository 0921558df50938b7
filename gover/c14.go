package main

import (
	"go/token"
	"go/types"
	"strings"
)

// Frame contracts of the reading operations (C14): WriteTo, ToSQLString, Pos, End (and String)
// of every node type, Walk, Inspect and NewCommentMap have an empty frame on the tree:
//   - every store goes to an object the operation allocated itself,
//   - append and copy only write to lists the operation made itself ("own" lists),
//   - tree references are handed only to functions under the same contract or to standard
//     library functions that do not write through their arguments.

func ownPred(s *Term) *Term { return UF("own", SBool, s) }

// own: the backing array of s was made by the operation itself (or s is nil).
func own(x *Exec, st *State, s *Term) bool {
	switch s.Op {
	case "nilseq", "seq":
		return true
	case "snoc", "cat", "sub":
		return own(x, st, s.A[0])
	case "ite":
		return own(x, st, s.A[1]) && own(x, st, s.A[2])
	case "uf":
		// element of a map the operation made: every update stored an own list
		if s.S == "mapget" {
			return freshMap(s.A[0])
		}
	}
	return st.pcs[ownPred(s)]
}

func freshMap(ver *Term) bool {
	for ver.Op == "uf" && (ver.S == "mapset" || ver.S == "mapdel") {
		ver = ver.A[0]
	}
	return ver.Op == "uf" && ver.S == "emptymap" || ver.Op == "sym" && strings.HasPrefix(ver.S, "@mapver(new")
}

type frameModel struct {
	P    *Program
	node *types.Interface
	recv *Term
}

var pureStd = map[string]bool{"fmt": true, "errors": true, "strconv": true, "strings": true, "bytes": true, "time": true, "log": true, "unicode": true, "unicode/utf8": true, "io": true, "math": true}

var readOps = map[string]bool{"WriteTo": true, "ToSQLString": true, "Pos": true, "End": true, "String": true, "WriteStringTo": true}

func (m *frameModel) bad(x *Exec, what string, pos token.Pos) {
	x.Ob(fname(x.top), "frame", what, false, what, pos)
}

func isTreeRef(x *Exec, st *State, a *Term) bool {
	switch a.Sort {
	case SSeq:
		return !own(x, st, a)
	case SRef:
		r := a
		for r.Op == "box" && r.A[0].Sort == SRef {
			r = r.A[0]
		}
		switch root(r).Op {
		case "alloc", "nil", "global", "func", "closure", "errconst":
			return false
		}
		if r.Op == "box" {
			return r.A[0].Sort == SSeq && !own(x, st, r.A[0])
		}
		return true
	}
	return false
}

func (m *frameModel) model(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
	ret := func(vs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, vals: vs}}, true }
	pos := token.NoPos
	if ci.instr != nil {
		pos = ci.instr.Pos()
	}
	switch ci.name {
	case "builtin.append":
		a := ci.args[0]
		if a.Sort == SSeq {
			ok := own(x, st, a)
			x.Ob(fname(x.top), "frame", "append in "+fname(fr.fn)+" extends a list made by the operation itself", ok, a.String(), pos)
			r := Cat(a, ci.args[1])
			if r == ci.args[1] && r.Sort == SSeq && r.Op != "seq" && r.Op != "nilseq" {
				// appending to an empty list copies
				f := FreshT("append", a.T)
				f = Fresh("append", SSeq, a.T)
				st.assume(Eq(Len(f), Len(r)))
				st.assume(ownPred(f))
				r = f
			}
			return ret(r)
		}
		if a.Op == "fld" || a.Op == "at" {
			m.bad(x, "append in "+fname(fr.fn)+" to a byte list of the tree", pos)
		}
		return nil, false
	case "builtin.copy":
		a := ci.args[0]
		if a.Sort == SSeq {
			x.Ob(fname(x.top), "frame", "copy in "+fname(fr.fn)+" writes to a list made by the operation itself", own(x, st, a), a.String(), pos)
			// the elements of a freshly made list are not otherwise constrained
			if a.Op == "sym" && strings.HasPrefix(a.S, "make#") {
				return ret(Fresh("n", SInt, nil))
			}
			x.Ob(fname(x.top), "unsupported", "copy to a list with known elements", false, a.String(), pos)
		}
		return ret(Fresh("n", SInt, nil))
	}
	if strings.HasPrefix(ci.name, "builtin.") {
		return nil, false
	}
	if ci.method != "" {
		rt := ci.instr.Common().Value.Type()
		switch ci.method {
		case "Write", "WriteString", "WriteByte", "Visit":
			return ret(x.freshResults(ci)...)
		}
		if readOps[ci.method] && ci.fn == nil || types.Implements(rt, m.node) || ci.fn != nil && m.isNode(ci.fn.Signature.Recv()) {
			if ci.recv == m.recv && ci.fn != nil && !x.inStack(fr, ci.fn) {
				return nil, false
			}
			if readOps[ci.method] || m.pureMarker(ci) {
				return ret(x.freshResults(ci)...)
			}
		}
		if ci.fn != nil {
			return nil, false
		}
		if ci.method == "Error" || ci.method == "String" {
			return ret(x.freshResults(ci)...)
		}
		m.bad(x, "call of unknown method "+ci.method+" in "+fname(fr.fn), pos)
		return ret(x.freshResults(ci)...)
	}
	if ci.fn == nil {
		if ci.dyn != nil && (ci.dyn.Op == "sym" || ci.dyn.Op == "fld") {
			return ret(x.freshResults(ci)...) // the caller's function
		}
		return nil, false
	}
	if ci.fn.Pkg == nil || !strings.HasPrefix(ci.fn.Pkg.Pkg.Path(), modPath) {
		if ci.fn.Pkg != nil && pureStd[ci.fn.Pkg.Pkg.Path()] || ci.fn.Object() != nil && ci.fn.Object().Pkg() != nil && pureStd[ci.fn.Object().Pkg().Path()] {
			x.assumed["standard library functions of fmt, errors, strconv, strings, bytes, time, log, unicode, io do not write through the tree references they are given"] = true
			if ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "log" {
				return nil, false
			}
			return ret(x.freshResults(ci)...)
		}
		if ci.fn.Pkg == nil && ci.fn.Synthetic != "" && len(ci.fn.Blocks) > 0 {
			return nil, false // wrappers
		}
		for _, a := range ci.args {
			if isTreeRef(x, st, a) {
				m.bad(x, "tree reference passed to "+ci.name+" in "+fname(fr.fn), pos)
			}
		}
		return ret(x.freshResults(ci)...)
	}
	switch fname(ci.fn) {
	case "sqlast.Walk":
		return ret()
	case "sqlast.Inspect":
		m.inspect(x, fr, st, ci.args[1], pos)
		return ret()
	}
	if rc := ci.fn.Signature.Recv(); rc != nil && readOps[ci.fn.Name()] && m.isNode(rc) {
		if Box(ci.args[0], rc.Type()) == m.recv && !x.inStack(fr, ci.fn) {
			return nil, false
		}
		return ret(x.freshResults(ci)...)
	}
	if x.inStack(fr, ci.fn) || fr.depth >= x.inlineMax {
		// recursion through a helper: its body is being checked already; results are arbitrary
		for _, a := range ci.args {
			if a.Sort == SRef && isFreshRoot(a) {
				m.bad(x, "recursive helper "+ci.name+" is given a local object", pos)
			}
		}
		return ret(x.freshResults(ci)...)
	}
	return nil, false
}

func (m *frameModel) isNode(v *types.Var) bool {
	return v != nil && types.Implements(v.Type(), m.node)
}

// pureMarker: methods of the node interfaces other than the reading operations are only allowed
// when they have no effect we could miss: every implementation has an empty body.
func (m *frameModel) pureMarker(ci *CallInfo) bool {
	any := false
	for _, nt := range nodeTypes(m.P) {
		if f := m.P.method(nt.T, ci.method); f != nil {
			any = true
			for _, b := range f.Blocks {
				if len(b.Instrs) > 1 {
					return false
				}
			}
		}
	}
	return any
}

// inspect: Inspect(n, f) calls f any number of times; f's body keeps the frame, and the
// variables it captures may hold anything the body stores in them.
func (m *frameModel) inspect(x *Exec, fr *Frame, st *State, f *Term, pos token.Pos) {
	if f.Op != "closure" && f.Op != "func" {
		return
	}
	fn := closureFns[f.S]
	if fn == nil {
		fn = m.P.funcs[f.S]
	}
	if fn == nil {
		m.bad(x, "function passed to Inspect is not known", pos)
		return
	}
	havoc := func(s *State, assumeOwn map[*Term]bool) {
		for _, b := range f.A {
			pt, ok := b.T.Underlying().(*types.Pointer)
			var t types.Type = b.T
			if ok {
				t = pt.Elem()
			}
			if b.Op == "alloc" {
				t = b.T
			}
			v := FreshT("captured", t)
			s.mem[b] = v
			if assumeOwn[b] {
				s.assume(ownPred(v))
			}
		}
	}
	keep := map[*Term]bool{}
	for _, b := range f.A {
		if v := st.mem[b]; b.Op == "alloc" && (v == nil || v.Sort == SSeq && own(x, st, v)) {
			keep[b] = true
		}
	}
	for {
		s := st.clone()
		havoc(s, keep)
		var arg []*Term
		for _, p := range fn.Params {
			arg = append(arg, FreshT("node", p.Type()))
		}
		n := len(keep)
		x.mute++
		exits := x.Run(fn, arg, f.A, s, fr)
		x.mute--
		for _, e := range exits {
			for b := range keep {
				if v := e.st.mem[b]; v != nil && v.Sort == SSeq && !own(x, e.st, v) {
					delete(keep, b)
				}
			}
		}
		if len(keep) == n {
			s := st.clone()
			havoc(s, keep)
			x.Run(fn, arg, f.A, s, fr)
			break
		}
	}
	havoc(st, keep)
}

func (m *frameModel) onStore(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
	r := root(addr)
	ok := r.Op == "alloc" || r.Op == "global"
	if r.Sort == SSeq {
		ok = own(x, st, r)
	}
	x.Ob(fname(x.top), "frame", "store in "+fname(fr.fn)+" goes to an object of the operation itself", ok, "store to "+addr.String(), pos)
	if r.Op == "alloc" && val.Sort == SSeq && addr.Op == "addr.i" && addr.S == "map" {
		x.Ob(fname(x.top), "frame", "list stored in a map in "+fname(fr.fn)+" is owned by the operation", own(x, st, val), val.String(), pos)
	}
}

func checkC14(P *Program, rep *Report) {
	newX := func(recv *Term) *Exec {
		x := rep.exec(P, "C14")
		m := &frameModel{P: P, node: P.nodeIface(), recv: recv}
		x.model = m.model
		x.onStore = m.onStore
		x.loopCands = func(x *Exec, lc *LoopCtx) []*Term {
			var out []*Term
			for _, s := range lc.vars {
				if s.Sort == SSeq && s.Op == "sym" {
					out = append(out, ownPred(s))
				}
			}
			return out
		}
		x.prover = func(x *Exec, st *State, g *Term) (bool, bool) {
			if g.Op == "uf" && g.S == "own" {
				return true, own(x, st, g.A[0])
			}
			return false, false
		}
		x.onMake = func(st *State, s *Term) { st.assume(ownPred(s)) }
		return x
	}
	for _, nt := range nodeTypes(P) {
		for _, mn := range []string{"WriteTo", "ToSQLString", "Pos", "End", "String", "WriteStringTo"} {
			f := P.method(nt.T, mn)
			if f == nil {
				continue
			}
			// methods promoted from embedded nodes are wrappers around checked methods
			recv := Sym("n", SRef, nt.T)
			x := newX(Box(recv, nt.T))
			x.top = f
			st := newState()
			st.assume(Not(Eq(recv, Nil)))
			args := []*Term{recv}
			for _, p := range f.Params[1:] {
				args = append(args, Sym(p.Name(), sortOf(p.Type()), p.Type()))
			}
			x.Run(f, args, nil, st, nil)
			x.Ob(fname(f), "frame", "every path executed", true, "", f.Pos())
			rep.done(x, f)
		}
		walk := P.funcs["sqlast.Walk"]
		x := newX(nil)
		x.top = walk
		st := newState()
		recv := Sym("n", SRef, nt.T)
		st.assume(Not(Eq(recv, Nil)))
		x.Run(walk, []*Term{Sym("v", SRef, walk.Params[0].Type()), Box(recv, nt.T)}, nil, st, nil)
		rep.done(x, walk)
	}
	for _, n := range []string{"sqlast.Inspect", "(sqlast.inspector).Visit", "sqlast.NewCommentMap"} {
		f := P.funcs[n]
		if f == nil {
			continue
		}
		x := newX(nil)
		x.top = f
		st := newState()
		var args []*Term
		for _, p := range f.Params {
			args = append(args, Sym(p.Name(), sortOf(p.Type()), p.Type()))
		}
		x.Run(f, args, nil, st, nil)
		x.Ob(fname(f), "frame", "every path executed", true, "", f.Pos())
		rep.done(x, f)
	}
}
