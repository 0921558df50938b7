package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of tree walking (C10).
//
//   Walk(v, node)   requires  v, node non-nil, node well-formed
//                   effect    appends  visit(v, node) -> r ;
//                             if r != nil: walk(r, c) for every child c in any order of the
//                             fields (list elements in list order), then visit(r, nil)
//                   (callers inside the package are checked against "walk(v, node)")
//   v.Visit(node)   returns any visitor; recorded as an event
//   Inspect(n, f)   effect    walk(inspector(f), n)
//   inspector.Visit effect    one call f(node); result non-nil (the inspector itself) iff true

var evCell = UF("ghost.events", SRef)

func isEvents(a *Term) bool { return a == evCell }

func pushEv(st *State, e *Term) {
	o := st.mem[evCell]
	if o == nil {
		o = Str("")
	}
	st.mem[evCell] = SCat(o, e)
}

type kidField struct {
	name string
	idx  int
	list bool
	T    types.Type // field type
	el   types.Type // element type for lists
}

// kidFields: the fields of the node struct that hold child nodes (comments of a File are not
// children, as in go/ast).
func (P *Program) kidFields(T types.Type) []kidField {
	node := P.nodeIface()
	isNode := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer:
			return types.Implements(t, node)
		}
		return false
	}
	s := T.Underlying().(*types.Struct)
	var out []kidField
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() || !f.Exported() {
			continue
		}
		if isNode(f.Type()) {
			out = append(out, kidField{name: f.Name(), idx: i, T: f.Type()})
		} else if sl, ok := f.Type().Underlying().(*types.Slice); ok && isNode(sl.Elem()) {
			if strings.HasSuffix(sl.Elem().String(), "sqlast.CommentGroup") {
				continue
			}
			out = append(out, kidField{name: f.Name(), idx: i, list: true, T: f.Type(), el: sl.Elem()})
		}
	}
	return out
}

// asNode: the interface value made from v of static type t.
func asNode(v *Term, t types.Type) *Term {
	if isIface(t) {
		return v
	}
	return Box(v, t)
}

func (x *Exec) nodeProver(P *Program, nt nodeType) {
	lists := map[string]bool{}
	if r := grammar(P).rules[nt.name]; r != nil {
		for l := range r.listFields() {
			lists["sqlast."+nt.name+"."+l] = true
		}
	}
	x.prover = func(x *Exec, st *State, goal *Term) (bool, bool) { return elemNonNil(goal, lists) }
}

func walkModel(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
	ret := func(vs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, vals: vs}}, true }
	pos := token.NoPos
	if ci.instr != nil {
		pos = ci.instr.Pos()
	}
	if ci.method == "Visit" && ci.recv != nil && ci.fn == nil && len(ci.args) == 1 {
		x.require(fr, st, Not(Eq(ci.recv, Nil)), "nil-deref", "visitor", pos)
		r := Fresh("ret", SRef, nil)
		pushEv(st, UF("visit", SStr, ci.recv, ci.args[0], r))
		return ret(r)
	}
	if ci.fn != nil && fname(ci.fn) == "sqlast.Walk" {
		x.Ob(fname(x.top), "requires", "Walk called with a non-nil visitor in "+fname(fr.fn), x.Prove(st, Not(Eq(ci.args[0], Nil))), "visitor may be nil"+pathStr(st), pos)
		pushEv(st, UF("walk", SStr, ci.args[0], ci.args[1]))
		return ret()
	}
	if ci.fn == nil && ci.method == "" && ci.dyn != nil && ci.dyn.Op == "sym" {
		var rs []*Term
		for i := 0; i < ci.sig.Results().Len(); i++ {
			rs = append(rs, FreshT("callret", ci.sig.Results().At(i).Type()))
		}
		pushEv(st, UF("call", SStr, append(append([]*Term{ci.dyn}, ci.args...), rs...)...))
		return ret(rs...)
	}
	return nil, false
}

// covers checks that the events deliver exactly the node's children. Each event is of the form
// name(args..., child): isChild tells which arguments an event must carry.
type coverage struct {
	x    *Exec
	st   *State
	recv *Term
	T    types.Type
	kids []kidField
	ok   func(ev *Term) (child *Term, why string)
}

type listPos struct{ pos *Term }

func (c *coverage) check(evs []*Term) string {
	x, st := c.x, c.st
	type kidState struct {
		k    kidField
		load *Term
		pos  *Term
		seen int
	}
	ks := map[*Term]*kidState{} // by field load term
	var order []*kidState
	for _, k := range c.kids {
		l := x.load(st, fieldAddr(c.recv, c.T, k.idx), k.T)
		s := &kidState{k: k, load: l, pos: Zero}
		order = append(order, s)
		ks[l] = s
	}
	find := func(child *Term) (*kidState, *Term) { // kid state and list index
		for _, s := range order {
			if !s.k.list {
				if child == asNode(s.load, s.k.T) {
					return s, nil
				}
			}
		}
		t := child
		if t.Op == "box" {
			t = t.A[0]
		}
		if t.Op == "at" {
			if s := ks[t.A[0]]; s != nil && s.k.list && child == asNode(t, s.k.el) {
				return s, t.A[1]
			}
		}
		return nil, nil
	}
	for _, e := range evs {
		if e.Op == "rep" {
			info := reps[e.S]
			lo, hi := e.A[0], e.A[1]
			// in every iteration: for each list, exactly one element at offset c
			type off struct{ c *Term }
			per := map[*kidState]*Term{}
			var alts []RepAlt
			for _, a := range info.alts {
				as := st.clone()
				as.assume(Le(lo, info.ivar))
				as.assume(Lt(info.ivar, hi))
				feas := true
				for _, cd := range a.conds {
					// well-formed trees hold no nil elements
					if h, ok := elemNilCond(x, as, cd); h && !ok {
						feas = false
						break
					}
					if !x.feasible(as, cd) {
						feas = false
						break
					}
					as.assume(cd)
				}
				if feas {
					alts = append(alts, a)
				}
			}
			for ai, a := range alts {
				got := map[*kidState]*Term{}
				for _, p := range pieces(a.delta) {
					child, why := c.ok(p)
					if why != "" {
						return "in a loop: " + why
					}
					s, idx := find(child)
					if s == nil || idx == nil {
						return "in a loop: " + child.String() + " is not an element of one of the node's lists"
					}
					o := Sub(idx, info.ivar)
					if o.contains(info.ivar) {
						return "in a loop: element index " + idx.String() + " does not advance with the loop"
					}
					if got[s] != nil {
						return "in a loop: two elements of " + s.k.name + " per iteration"
					}
					got[s] = o
				}
				if ai == 0 {
					per = got
				} else {
					if len(per) != len(got) {
						return "in a loop: some iterations skip children"
					}
					for s, o := range got {
						if per[s] != o {
							return "in a loop: some iterations skip children of " + s.k.name
						}
					}
				}
			}
			if x.Prove(st, Le(hi, lo)) {
				continue // never executed
			}
			if !x.Prove(st, Le(lo, hi)) {
				return "cannot order the bounds of the loop"
			}
			for s, o := range per {
				if !x.Prove(st, Eq(Add(lo, o), s.pos)) {
					return fmt.Sprintf("elements of %s: loop starts at %s, expected %s", s.k.name, Add(lo, o), s.pos)
				}
				s.pos = Add(hi, o)
			}
			continue
		}
		child, why := c.ok(e)
		if why != "" {
			return why
		}
		s, idx := find(child)
		if s == nil {
			return "visits " + child.String() + ", which is not a child of the node"
		}
		if idx == nil {
			if s.seen > 0 {
				return "child " + s.k.name + " is visited twice"
			}
			s.seen++
			if !x.Prove(st, Not(Eq(s.load, Nil))) {
				return "child " + s.k.name + " may be nil when it is visited"
			}
			continue
		}
		if !x.Prove(st, Eq(idx, s.pos)) {
			return fmt.Sprintf("elements of %s: visits index %s, expected %s", s.k.name, idx, s.pos)
		}
		s.pos = Add(idx, One)
	}
	for _, s := range order {
		if s.k.list {
			if !x.Prove(st, Eq(s.pos, Len(s.load))) {
				return fmt.Sprintf("elements of %s: only the first %s of %s are visited", s.k.name, s.pos, Len(s.load))
			}
		} else if s.seen == 0 && !x.Prove(st, Eq(s.load, Nil)) {
			return "child " + s.k.name + " is not visited"
		}
	}
	return ""
}

// elemNilCond: is cd "element == nil" for a list element known to be non-nil?
func elemNilCond(x *Exec, st *State, cd *Term) (bool, bool) {
	if cd.Op == "eq" && (cd.A[0] == Nil || cd.A[1] == Nil) && x.prover != nil {
		if h, ok := x.prover(x, st, Not(cd)); h && ok {
			return true, false
		}
	}
	return false, false
}

func checkC10(P *Program, rep *Report) {
	walk := P.funcs["sqlast.Walk"]
	if walk == nil {
		fatalf("no function sqlast.Walk")
	}
	for _, nt := range nodeTypes(P) {
		x := rep.exec(P, "C10")
		x.model = walkModel
		x.isLog = isEvents
		x.checkPanics = true
		x.top = walk
		st := newState()
		recv := Sym("n", SRef, nt.T)
		node := Box(recv, nt.T)
		wfAssume(P, x, st, nt, recv)
		x.nodeProver(P, nt)
		v := Sym("v", SRef, walk.Params[0].Type())
		st.assume(Not(Eq(v, Nil)))
		st.mem[evCell] = Str("")
		structT := nt.T.Underlying().(*types.Pointer).Elem()
		nret := 0
		for _, e := range x.Run(walk, []*Term{v, node}, nil, st, nil) {
			if e.kind != exRet {
				x.Ob(fname(walk), "no-panic", "Walk of a *"+nt.name+" does not panic", false, "panic: "+e.pval.String()+pathStr(e.st), walk.Pos())
				continue
			}
			nret++
			evs := pieces(e.st.mem[evCell])
			why := checkWalk(P, x, e.st, evs, v, node, recv, structT)
			if why != "" {
				why += "\n  events: " + evStr(evs) + "\n  path: " + pathStr(e.st)
			}
			x.Ob(fname(walk), "post:children", fmt.Sprintf("Walk of a *sqlast.%s , return %d: visits the node, each child once, and ends", nt.name, nret), why == "", why, walk.Pos())
		}
		x.Ob(fname(walk), "reachable", "Walk of a *"+nt.name+" returns normally", nret > 0, "", walk.Pos())
		rep.done(x, walk)
	}
	checkInspect(P, rep)
}

func evStr(evs []*Term) string {
	var ss []string
	for _, e := range evs {
		s := e.String()
		if e.Op == "rep" {
			for _, a := range reps[e.S].alts {
				s += " {" + a.delta.String() + "}"
			}
		}
		ss = append(ss, s)
	}
	return strings.Join(ss, " ; ")
}

func checkWalk(P *Program, x *Exec, st *State, evs []*Term, v, node, recv *Term, T types.Type) string {
	if len(evs) == 0 || evs[0].Op != "uf" || evs[0].S != "visit" || evs[0].A[0] != v || evs[0].A[1] != node {
		return "the first event is not Visit(node) on the given visitor"
	}
	r := evs[0].A[2]
	if x.Prove(st, Eq(r, Nil)) {
		if len(evs) > 1 {
			return "Visit returned nil but the walk continues"
		}
		return ""
	}
	if len(evs) == 1 || !x.Prove(st, Not(Eq(r, Nil))) {
		return "the children are skipped although Visit may have returned a visitor"
	}
	last := evs[len(evs)-1]
	if last.Op != "uf" || last.S != "visit" || last.A[0] != r || last.A[1] != Nil {
		return "the walk does not end with Visit(nil) on the returned visitor"
	}
	c := &coverage{x: x, st: st, recv: recv, T: T, kids: P.kidFields(T)}
	c.ok = func(e *Term) (*Term, string) {
		if e.Op != "uf" || e.S != "walk" {
			return nil, "unexpected event " + e.String()
		}
		if e.A[0] != r {
			return nil, "a child is walked with a visitor other than the one Visit returned"
		}
		return e.A[1], ""
	}
	return c.check(evs[1 : len(evs)-1])
}

func checkInspect(P *Program, rep *Report) {
	f := P.funcs["sqlast.Inspect"]
	if f == nil {
		fatalf("no function sqlast.Inspect")
	}
	x := rep.exec(P, "C10")
	x.model = walkModel
	x.isLog = isEvents
	x.checkPanics = true
	x.top = f
	st := newState()
	st.mem[evCell] = Str("")
	node := Sym("node", SRef, f.Params[0].Type())
	fn := Sym("f", SRef, f.Params[1].Type())
	st.assume(Not(Eq(node, Nil)))
	st.assume(Not(Eq(fn, Nil)))
	var visitor *Term
	n := 0
	for _, e := range x.Run(f, []*Term{node, fn}, nil, st, nil) {
		if e.kind != exRet {
			x.Ob(fname(f), "no-panic", "Inspect does not panic", false, pathStr(e.st), f.Pos())
			continue
		}
		n++
		evs := pieces(e.st.mem[evCell])
		ok := len(evs) == 1 && evs[0].Op == "uf" && evs[0].S == "walk" && evs[0].A[1] == node && evs[0].A[0].Op == "box"
		x.Ob(fname(f), "post:walk", "Inspect walks the node once", ok, evStr(evs), f.Pos())
		if ok {
			visitor = evs[0].A[0]
			checkInspectorVisit(P, rep, x, e.st, visitor, fn)
		}
	}
	x.Ob(fname(f), "reachable", "Inspect returns normally", n > 0, "", f.Pos())
	rep.done(x, f)
}

// the visitor Inspect hands to Walk: Visit(node) calls f(node) exactly once and returns a
// visitor that behaves the same iff the result is true.
func checkInspectorVisit(P *Program, rep *Report, x *Exec, st0 *State, visitor, fn *Term) {
	m := P.method(visitor.T, "Visit")
	if m == nil || len(m.Blocks) == 0 {
		x.Ob("sqlast.Inspect", "post:visitor", "the visitor's Visit method is known", false, "", token.NoPos)
		return
	}
	for _, nd := range []*Term{Sym("m", SRef, nil), Nil} {
		st := st0.clone()
		st.mem[evCell] = Str("")
		n := 0
		for _, e := range x.Run(m, []*Term{Unbox(visitor, visitor.T), nd}, nil, st, nil) {
			if e.kind != exRet {
				x.Ob(fname(m), "no-panic", "Visit does not panic", false, pathStr(e.st), m.Pos())
				continue
			}
			n++
			evs := pieces(e.st.mem[evCell])
			why := ""
			if len(evs) != 1 || evs[0].Op != "uf" || evs[0].S != "call" || evs[0].A[0] != fn || evs[0].A[1] != nd {
				why = "does not call the function exactly once with the node: " + evStr(evs)
			} else {
				b := evs[0].A[2]
				res := e.vals[0]
				switch {
				case res == Nil:
					if !x.Prove(e.st, Not(b)) {
						why = "returns nil although the function may have returned true"
					}
				case res == visitor:
					if !x.Prove(e.st, b) {
						why = "descends although the function may have returned false"
					}
				default:
					why = "returns another visitor: " + res.String()
				}
			}
			x.Ob(fname(m), "post:inspector", fmt.Sprintf("return %d (%s): one call of f, descends iff true", n, nd), why == "", why, m.Pos())
		}
		x.Ob(fname(m), "reachable", "Visit returns normally", n > 0, "", m.Pos())
	}
	rep.fns[fname(m)] = true
}

var _ = ssa.NewProgram
