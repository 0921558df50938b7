package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of package sqlastutil (C11, C12).
//
//  The list addressed by a cursor is the ghost value list(parent, name); its elements from
//  index+step on are those still to be visited ("rest").
//
//  application.apply(parent, name, iter, n)   (recursive; verified per node type)
//    requires  n non-nil, parent's field name (element iter.index of it) holds n
//    effect    pre(cursor) if set; if it returns false nothing more; else for every non-nil
//              child once: apply(n, F, nil, n.F) or applyList(n, F); then post(cursor) if set;
//              panic(abort) iff post returns false; cursor shows (parent, name, iter, n) at both
//              calls
//    ensures   cursor restored; iter changed only by edits; rest unchanged by edits
//  application.applyList(parent, name)
//    effect    apply(parent, name, &a.iter, x) for every original element x once, in order
//    ensures   a.iter restored
//  Cursor.Replace/Delete/InsertBefore/InsertAfter
//    requires  for list places 0 <= index < len, step >= 1, index+step <= len
//    ensures   the list (field) is the old one with exactly the edit made, the cursor's
//              element keeps its index, rest is unchanged; a panic leaves everything unchanged
//  Apply(root, pre, post) applies to {Node: root} under the name "Node", recovers only abort
//    and returns the wrapper's field.

func fieldCell(parent, name *Term) *Term { return UF("field", SRef, parent, name) }

func rv(kind string, typ *Term, args ...*Term) *Term {
	return mk("rv", SStruct, kind, 0, nil, append([]*Term{typ}, args...)...)
}

func rtypeOf(cell *Term) *Term { return UF("rtypeof", SRef, cell) }
func relem(t *Term) *Term      { return UF("relem", SRef, t) }
func rtypeT(t types.Type) *Term {
	return mk("uf", SRef, "rtype:"+tstr(t), 0, nil)
}
func assignable(v, t *Term) *Term { return UF("assignable", SBool, v, t) }
func epoch(cell *Term) *Term      { return UF("ghost.epoch", SRef, cell) }

type applyModel struct {
	P      *Program
	lists  map[*Term]bool // cells that are lists
	onCall func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool)
}

func (m *applyModel) unsup(x *Exec, what string, pos token.Pos) {
	x.Ob(fname(x.top), "unsupported", what, false, what, pos)
}

func (m *applyModel) epochOf(st *State, cell *Term) *Term {
	if e, ok := st.mem[epoch(cell)]; ok {
		return e
	}
	return epoch(cell)
}

func (m *applyModel) bump(st *State, cell *Term) {
	st.mem[epoch(cell)] = Fresh("epoch", SRef, nil)
}

// curList: current value of a list cell.
func (m *applyModel) curList(st *State, cell *Term) *Term {
	if v, ok := st.mem[cell]; ok {
		return v
	}
	return Sym("list:"+cell.String(), SSeq, nil)
}

func (m *applyModel) readRv(x *Exec, st *State, v *Term) *Term {
	switch v.S {
	case "val":
		return v.A[1]
	case "idx":
		return At(m.curList(st, v.A[1]), v.A[2], SRef, nil)
	case "loc":
		if m.lists[v.A[1]] {
			return m.curList(st, v.A[1])
		}
		if c, ok := st.mem[v.A[1]]; ok {
			return c
		}
		return UF("content", SRef, v.A[1])
	}
	return nil
}

// writeSeq replaces the list's elements (same header).
func (m *applyModel) setList(x *Exec, fr *Frame, st *State, cell, val *Term, pos token.Pos) {
	if x.onStore != nil {
		x.onStore(x, fr, st, cell, val, pos)
	}
	st.mem[cell] = val
}

func (m *applyModel) model(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
	ret := func(vs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, vals: vs}}, true }
	pos := token.NoPos
	if ci.instr != nil {
		pos = ci.instr.Pos()
	}
	if m.onCall != nil {
		if o, ok := m.onCall(x, fr, st, ci); ok {
			return o, ok
		}
	}
	panics := func() Outcome { return Outcome{st: st, pval: UF("reflectpanic", SRef)} }
	if ci.method != "" && ci.recv != nil && ci.recv.Op == "uf" && strings.HasPrefix(ci.recv.S, "r") {
		if ci.method == "Elem" {
			return ret(relem(ci.recv))
		}
		if ci.method == "Kind" && strings.HasPrefix(ci.recv.S, "rtype:") {
			return nil, false
		}
	}
	if ci.fn == nil || ci.fn.Pkg == nil && ci.fn.Object() == nil {
		return nil, false
	}
	full := ci.fn.String()
	if !strings.HasPrefix(full, "reflect.") && !strings.HasPrefix(full, "(reflect.Value)") {
		return nil, false
	}
	a := ci.args
	need := func(c *Term, what string) {
		x.require(fr, st, c, "no-panic", what+" in "+fname(fr.fn), pos)
	}
	isRv := func(t *Term, kinds ...string) bool {
		if t.Op != "rv" {
			return false
		}
		for _, k := range kinds {
			if t.S == k {
				return true
			}
		}
		return len(kinds) == 0
	}
	switch full {
	case "reflect.ValueOf":
		v := a[0]
		if v.Op == "box" {
			return ret(rv("val", rtypeT(v.T), v))
		}
		return ret(rv("val", UF("rtypedyn", SRef, v), v))
	case "reflect.TypeOf":
		if a[0].Op == "box" {
			return ret(rtypeT(a[0].T))
		}
		return ret(UF("rtypedyn", SRef, a[0]))
	case "(reflect.Value).Kind":
		if isRv(a[0], "val") && a[0].A[1].Op == "box" {
			k := int64(-1)
			switch a[0].A[1].T.Underlying().(type) {
			case *types.Pointer:
				k = 22
			case *types.Slice:
				k = 23
			case *types.Struct:
				k = 25
			}
			if k >= 0 {
				return ret(Int(k))
			}
		}
		if isRv(a[0], "loc") && m.lists[a[0].A[1]] {
			return ret(Int(23))
		}
		return ret(UF("rkind", SInt, a[0]))
	case "(reflect.Value).IsNil":
		if isRv(a[0], "val") && a[0].A[1].Op == "box" {
			return ret(Eq(a[0].A[1].A[0], Nil))
		}
		if v := m.readRv(x, st, a[0]); v != nil {
			return ret(Eq(v, Nil))
		}
		return ret(UF("risnil", SBool, a[0]))
	case "(reflect.Value).IsValid":
		if isRv(a[0], "val") {
			return ret(Not(Eq(a[0].A[1], Nil)))
		}
		return ret(True)
	case "(reflect.Value).CanSet", "(reflect.Value).CanAddr":
		return ret(Bool(isRv(a[0], "loc", "idx")))
	case "reflect.Indirect", "(reflect.Value).Elem":
		if isRv(a[0], "new") {
			return ret(rv("loc", a[0].A[0], a[0].A[1]))
		}
		if isRv(a[0], "val") {
			return ret(rv("obj", UF("rderef", SRef, a[0].A[0]), a[0].A[1]))
		}
	case "(reflect.Value).FieldByName":
		if isRv(a[0], "obj") {
			c := fieldCell(a[0].A[1], a[1])
			return ret(rv("loc", rtypeOf(c), c))
		}
	case "(reflect.Value).Type":
		if isRv(a[0]) {
			return ret(a[0].A[0])
		}
	case "(reflect.Value).Len", "(reflect.Value).Cap":
		if isRv(a[0], "loc") && m.lists[a[0].A[1]] {
			return ret(Len(m.curList(st, a[0].A[1])))
		}
		if isRv(a[0], "seqval") {
			return ret(Len(a[0].A[1]))
		}
		if isRv(a[0], "view") {
			return ret(Sub(a[0].A[3], a[0].A[2]))
		}
	case "(reflect.Value).Index":
		if isRv(a[0], "loc") && m.lists[a[0].A[1]] {
			need(And(Le(Zero, a[1]), Lt(a[1], Len(m.curList(st, a[0].A[1])))), "index in range")
			return ret(rv("idx", relem(a[0].A[0]), a[0].A[1], a[1], m.epochOf(st, a[0].A[1])))
		}
	case "(reflect.Value).Slice":
		if isRv(a[0], "loc") && m.lists[a[0].A[1]] {
			need(And(Le(Zero, a[1]), Le(a[1], a[2]), Le(a[2], Len(m.curList(st, a[0].A[1])))), "slice bounds")
			return ret(rv("view", a[0].A[0], a[0].A[1], a[1], a[2], m.epochOf(st, a[0].A[1])))
		}
	case "reflect.Zero":
		return ret(rv("val", a[0], UF("zeroof", SRef, a[0])))
	case "reflect.New":
		return ret(rv("new", a[0], newAlloc(types.Typ[types.UnsafePointer])))
	case "reflect.Append":
		if isRv(a[0], "loc") && m.lists[a[0].A[1]] && (a[1].Op == "seq" || a[1].Op == "nilseq") {
			l := m.curList(st, a[0].A[1])
			outs := []Outcome{}
			for _, e := range a[1].A {
				ok, c := m.assignTo(x, st, e, relem(a[0].A[0]))
				if !ok {
					m.unsup(x, "append of an unknown value", pos)
					return ret(Fresh("rv", SStruct, nil))
				}
				if c != True {
					s2 := st.clone()
					s2.assume(Not(c))
					outs = append(outs, Outcome{st: s2, pval: UF("reflectpanic", SRef)})
					st.assume(c)
				}
				l = Snoc(l, m.readRv(x, st, e))
			}
			return append(outs, Outcome{st: st, vals: []*Term{rv("seqval", a[0].A[0], l)}}), true
		}
	case "reflect.AppendSlice":
		if isRv(a[0], "view") && isRv(a[1], "view") && a[0].A[1] == a[1].A[1] {
			// append(v[:i], v[j:]...) writes in place when it fits
			d, s := a[0], a[1]
			cell := d.A[1]
			cur := m.curList(st, cell)
			if d.A[4] == m.epochOf(st, cell) && s.A[4] == d.A[4] && x.Prove(st, Le(Add(d.A[3], Sub(s.A[3], s.A[2])), Len(cur))) {
				k := Sub(s.A[3], s.A[2])
				src := SubSeq(cur, s.A[2], s.A[3])
				res := catAll(SubSeq(cur, d.A[2], d.A[3]), src)
				m.setList(x, fr, st, cell, catAll(SubSeq(cur, Zero, d.A[3]), src, SubSeq(cur, Add(d.A[3], k), Len(cur))), pos)
				return ret(rv("seqval", d.A[0], res))
			}
		}
	case "reflect.Copy":
		if isRv(a[0], "view") && isRv(a[1], "view") && a[0].A[1] == a[1].A[1] {
			d, s := a[0], a[1]
			cell := d.A[1]
			if d.A[4] != m.epochOf(st, cell) || s.A[4] != m.epochOf(st, cell) {
				break
			}
			cur := m.curList(st, cell)
			dl, sl := Sub(d.A[3], d.A[2]), Sub(s.A[3], s.A[2])
			var k *Term
			switch {
			case x.Prove(st, Le(dl, sl)):
				k = dl
			case x.Prove(st, Le(sl, dl)):
				k = sl
			default:
				m.unsup(x, "copy between views of unknown relative length", pos)
				return ret(Fresh("n", SInt, nil))
			}
			m.setList(x, fr, st, cell, catAll(SubSeq(cur, Zero, d.A[2]), SubSeq(cur, s.A[2], Add(s.A[2], k)), SubSeq(cur, Add(d.A[2], k), Len(cur))), pos)
			return ret(k)
		}
	case "(reflect.Value).SetLen":
		if isRv(a[0], "loc") && m.lists[a[0].A[1]] {
			cur := m.curList(st, a[0].A[1])
			need(And(Le(Zero, a[1]), Le(a[1], Len(cur))), "new length within the list")
			m.setList(x, fr, st, a[0].A[1], SubSeq(cur, Zero, a[1]), pos)
			m.bump(st, a[0].A[1])
			return ret()
		}
	case "(reflect.Value).Set":
		if isRv(a[1], "seqval") && isRv(a[0], "loc") && m.lists[a[0].A[1]] && a[0].A[0] == a[1].A[0] {
			m.setList(x, fr, st, a[0].A[1], a[1].A[1], pos)
			m.bump(st, a[0].A[1])
			return ret()
		}
		if isRv(a[0], "loc", "idx") {
			ok, c := m.assignTo(x, st, a[1], a[0].A[0])
			if !ok {
				break
			}
			val := m.readRv(x, st, a[1])
			var outs []Outcome
			if c != True {
				if x.feasible(st, Not(c)) {
					s2 := st.clone()
					s2.assume(Not(c))
					outs = append(outs, Outcome{st: s2, pval: panics().pval})
				}
				st.assume(c)
			}
			if a[0].S == "idx" {
				cell, i := a[0].A[1], a[0].A[2]
				if a[0].A[3] != m.epochOf(st, cell) {
					break
				}
				cur := m.curList(st, cell)
				m.setList(x, fr, st, cell, catAll(SubSeq(cur, Zero, i), Seq(val), SubSeq(cur, Add(i, One), Len(cur))), pos)
			} else {
				if m.lists[a[0].A[1]] {
					break
				}
				m.setList(x, fr, st, a[0].A[1], val, pos)
			}
			return append(outs, Outcome{st: st}), true
		}
	case "(reflect.Value).Interface":
		if v := m.readRv(x, st, a[0]); v != nil {
			return ret(v)
		}
	}
	m.unsup(x, "reflect operation "+full+" in "+fname(fr.fn)+" on "+fmt.Sprint(a), pos)
	return ret(x.freshResults(ci)...)
}

func catAll(xs ...*Term) *Term {
	r := NilSeq
	for _, s := range xs {
		if Len(s) == Zero {
			continue
		}
		if r == NilSeq {
			r = s
		} else {
			r = mk("cat", SSeq, "", 0, nil, r, s)
		}
	}
	return r
}

// assignTo: condition under which the value may be assigned to a place of type t.
func (m *applyModel) assignTo(x *Exec, st *State, v, t *Term) (bool, *Term) {
	if v.Op != "rv" {
		return false, nil
	}
	if v.A[0] == t {
		return true, True
	}
	if v.S == "val" {
		return true, assignable(v.A[1], t)
	}
	return false, nil
}

// ---------- sequences, pointwise ----------

type atCase struct {
	st *State
	v  *Term
}

// atCases resolves s[k] under st.
func atCases(x *Exec, st *State, s, k *Term) []atCase {
	switch s.Op {
	case "cat", "snoc":
		n := Len(s.A[0])
		var out []atCase
		c := Lt(k, n)
		if x.feasible(st, c) {
			s2 := st.clone()
			s2.assume(c)
			out = append(out, atCases(x, s2, s.A[0], k)...)
		}
		if x.feasible(st, Not(c)) {
			s2 := st.clone()
			s2.assume(Not(c))
			if s.Op == "snoc" {
				out = append(out, atCase{s2, s.A[1]})
			} else {
				out = append(out, atCases(x, s2, s.A[1], Sub(k, n))...)
			}
		}
		return out
	case "sub":
		return atCases(x, st, s.A[0], Add(s.A[1], k))
	case "seq":
		var out []atCase
		for i, e := range s.A {
			c := Eq(k, Int(int64(i)))
			if x.feasible(st, c) {
				s2 := st.clone()
				s2.assume(c)
				out = append(out, atCase{s2, e})
			}
		}
		return out
	case "nilseq":
		return nil
	}
	return []atCase{{st, At(s, k, SRef, nil)}}
}

// seqEq proves that a and b are the same sequence.
func seqEq(x *Exec, st *State, a, b *Term) string {
	if !x.Prove(st, Eq(Len(a), Len(b))) {
		return "length " + Len(a).String() + " instead of " + Len(b).String()
	}
	k := Fresh("k", SInt, nil)
	s := st.clone()
	s.assume(Le(Zero, k))
	s.assume(Lt(k, Len(a)))
	for _, ca := range atCases(x, s, a, k) {
		for _, cb := range atCases(x, ca.st, b, k) {
			if !x.Prove(cb.st, Eq(ca.v, cb.v)) {
				return fmt.Sprintf("element %s is %s instead of %s", k, ca.v, cb.v)
			}
		}
	}
	return ""
}

// ---------- Cursor ----------

type cursorCtx struct {
	cT                 types.Type // Cursor struct type
	c                  *Term
	parent, name, iter *Term
	node               *Term
	cell               *Term
	idxA, stepA        *Term
	idx, step          *Term
	L0                 *Term
}

func structField(t types.Type, name string) (int, types.Type) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	fatalf("type %s has no field %s", tstr(t), name)
	return 0, nil
}

func fieldOf(base *Term, t types.Type, name string) (*Term, types.Type) {
	i, ft := structField(t, name)
	return fieldAddr(base, t, i), ft
}

// newCursor sets up a cursor at a list place (list) or a single place.
func newCursor(P *Program, x *Exec, st *State, m *applyModel, list bool) *cursorCtx {
	pk := P.pkgs["sqlastutil"]
	cT := pk.Type("Cursor").Type()
	itT := pk.Type("iterator").Type()
	c := &cursorCtx{cT: cT, c: Sym("c", SRef, types.NewPointer(cT))}
	st.assume(Not(Eq(c.c, Nil)))
	get := func(n string) *Term {
		a, t := fieldOf(c.c, cT, n)
		return x.load(st, a, t)
	}
	c.parent, c.name, c.iter, c.node = get("parent"), get("name"), get("iter"), get("node")
	st.assume(Not(Eq(c.parent, Nil)))
	c.cell = fieldCell(c.parent, c.name)
	if list {
		st.assume(Not(Eq(c.iter, Nil)))
		var t types.Type
		c.idxA, t = fieldOf(c.iter, itT, "index")
		c.idx = x.load(st, c.idxA, t)
		c.stepA, t = fieldOf(c.iter, itT, "step")
		c.step = x.load(st, c.stepA, t)
		m.lists[c.cell] = true
		c.L0 = m.curList(st, c.cell)
		st.assume(Le(Zero, c.idx))
		st.assume(Lt(c.idx, Len(c.L0)))
		st.assume(Le(One, c.step))
		st.assume(Le(Add(c.idx, c.step), Len(c.L0)))
	} else {
		st.assume(Eq(c.iter, Nil))
	}
	return c
}

func (c *cursorCtx) cur(x *Exec, st *State) (l, idx, step *Term) {
	l = c.L0
	if v, ok := st.mem[c.cell]; ok {
		l = v
	}
	idx, step = c.idx, c.step
	if v, ok := st.mem[c.idxA]; ok {
		idx = v
	}
	if v, ok := st.mem[c.stepA]; ok {
		step = v
	}
	return
}

// frame: nothing but the allowed cells was written.
func (c *cursorCtx) frame(st *State, allowed ...*Term) string {
	for _, a := range sortedMem(st.mem) {
		if isFreshRoot(a) || a.Op == "uf" && a.S == "ghost.epoch" {
			continue
		}
		ok := false
		for _, b := range allowed {
			ok = ok || a == b
		}
		if !ok {
			return "also modifies " + a.String()
		}
	}
	return ""
}

func checkCursorEdits(P *Program, rep *Report) {
	for _, op := range []string{"Replace", "Delete", "InsertBefore", "InsertAfter"} {
		for _, list := range []bool{true, false} {
			f := P.funcs["(*sqlastutil.Cursor)."+op]
			if f == nil {
				fatalf("no method Cursor.%s", op)
			}
			x := rep.exec(P, rep.prop)
			m := &applyModel{P: P, lists: map[*Term]bool{}}
			x.model = m.model
			x.checkPanics = true
			x.top = f
			st := newState()
			c := newCursor(P, x, st, m, list)
			args := []*Term{c.c}
			var n *Term
			if len(f.Params) > 1 {
				n = Sym("n", SRef, f.Params[1].Type())
				args = append(args, n)
			}
			place := "a single field"
			if list {
				place = "a list element"
			}
			rets, pans := 0, 0
			for _, e := range x.Run(f, args, nil, st, nil) {
				if e.kind == exPanic {
					pans++
					why := ""
					switch {
					case list && op == "Delete":
						why = "Delete panics"
					case list || op == "Replace":
						typ := rtypeOf(c.cell)
						if list {
							typ = relem(typ)
						}
						if !x.Prove(e.st, Not(assignable(n, typ))) {
							why = "panics although the node fits the place"
						}
					}
					if why == "" && list {
						l, i, s := c.cur(x, e.st)
						if w := seqEq(x, e.st, l, c.L0); w != "" {
							why = "the list is changed before the panic: " + w
						} else if i != c.idx || s != c.step {
							why = "the traversal position is changed before the panic"
						}
						if why == "" {
							why = c.frame(e.st, c.cell, c.idxA, c.stepA)
						}
					} else if why == "" {
						why = c.frame(e.st)
					}
					if why != "" {
						why += pathStr(e.st)
					}
					x.Ob(fname(f), "post:panic", fmt.Sprintf("%s at %s: panic %d only on an edit the place does not allow, and changes nothing", op, place, pans), why == "", why, f.Pos())
					continue
				}
				rets++
				why := ""
				if !list {
					switch op {
					case "Replace":
						if v, ok := e.st.mem[c.cell]; !ok || v != n {
							why = "the field does not hold the given node"
						} else {
							why = c.frame(e.st, c.cell)
						}
					default:
						why = op + " returns at a place that is not a list"
					}
				} else {
					l, i, s := c.cur(x, e.st)
					var want, wantI *Term
					ln := Len(c.L0)
					shift := Zero
					switch op {
					case "Replace":
						want = catAll(SubSeq(c.L0, Zero, c.idx), Seq(n), SubSeq(c.L0, Add(c.idx, One), ln))
						wantI = c.idx
					case "Delete":
						want = catAll(SubSeq(c.L0, Zero, c.idx), SubSeq(c.L0, Add(c.idx, One), ln))
						wantI = c.idx
						shift = Int(-1)
					case "InsertBefore":
						want = catAll(SubSeq(c.L0, Zero, c.idx), Seq(n), SubSeq(c.L0, c.idx, ln))
						wantI = Add(c.idx, One)
						shift = One
					case "InsertAfter":
						want = catAll(SubSeq(c.L0, Zero, Add(c.idx, One)), Seq(n), SubSeq(c.L0, Add(c.idx, One), ln))
						wantI = c.idx
						shift = One
					}
					if w := seqEq(x, e.st, l, want); w != "" {
						why = "the list is not the old list with exactly this edit: " + w
					} else if !x.Prove(e.st, Eq(i, wantI)) {
						why = "the cursor's index is " + i.String() + " instead of " + wantI.String()
					} else if !x.Prove(e.st, Eq(Add(i, s), Add(Add(c.idx, c.step), shift))) {
						why = "the next element to visit is at " + Add(i, s).String() + " instead of " + Add(Add(c.idx, c.step), shift).String()
					} else {
						why = c.frame(e.st, c.cell, c.idxA, c.stepA)
					}
				}
				if why != "" {
					why += pathStr(e.st)
				}
				x.Ob(fname(f), "post:edit", fmt.Sprintf("%s at %s, return %d: exactly this edit, position and remaining elements kept", op, place, rets), why == "", why, f.Pos())
			}
			if list || op == "Replace" {
				x.Ob(fname(f), "reachable", op+" at "+place+" has a normal return", rets > 0, "", f.Pos())
			}
			if !list && op != "Replace" {
				x.Ob(fname(f), "reachable", op+" at "+place+" panics", pans > 0 && rets == 0, "", f.Pos())
			}
			rep.done(x, f)
		}
	}
}

func checkCursorReads(P *Program, rep *Report) {
	for _, op := range []string{"Node", "Parent", "Name", "Index"} {
		for _, list := range []bool{true, false} {
			f := P.funcs["(*sqlastutil.Cursor)."+op]
			if f == nil {
				fatalf("no method Cursor.%s", op)
			}
			x := rep.exec(P, rep.prop)
			m := &applyModel{P: P, lists: map[*Term]bool{}}
			x.model = m.model
			x.checkPanics = true
			x.top = f
			st := newState()
			c := newCursor(P, x, st, m, list)
			want := map[string]*Term{"Node": c.node, "Parent": c.parent, "Name": c.name, "Index": Int(-1)}[op]
			if list && op == "Index" {
				want = c.idx
			}
			n := 0
			for _, e := range x.Run(f, []*Term{c.c}, nil, st, nil) {
				if e.kind != exRet {
					x.Ob(fname(f), "no-panic", "does not panic", false, pathStr(e.st), f.Pos())
					continue
				}
				n++
				ok := x.Prove(e.st, Eq(e.vals[0], want))
				why := c.frame(e.st)
				x.Ob(fname(f), "post", fmt.Sprintf("%s returns the cursor's own value (list place: %v)", op, list), ok && why == "", why+" returns "+e.vals[0].String(), f.Pos())
			}
			x.Ob(fname(f), "reachable", "normal return", n > 0, "", f.Pos())
			rep.done(x, f)
		}
	}
}

// ---------- applyList ----------

var ghostJ = UF("ghost.j", SRef)

func checkApplyList(P *Program, rep *Report) {
	f := P.funcs["(*sqlastutil.application).applyList"]
	if f == nil {
		fatalf("no method application.applyList")
	}
	pk := P.pkgs["sqlastutil"]
	aT := pk.Type("application").Type()
	itT := pk.Type("iterator").Type()
	x := rep.exec(P, rep.prop)
	m := &applyModel{P: P, lists: map[*Term]bool{}}
	x.model = m.model
	x.checkPanics = true
	x.top = f
	st := newState()
	a := Sym("a", SRef, types.NewPointer(aT))
	parent := Sym("parent", SRef, f.Params[1].Type())
	name := Sym("name", SStr, f.Params[2].Type())
	st.assume(Not(Eq(a, Nil)))
	st.assume(Not(Eq(parent, Nil)))
	cell := fieldCell(parent, name)
	m.lists[cell] = true
	L0 := m.curList(st, cell)
	st.mem[cell] = L0
	st.mem[ghostJ] = Zero
	iterA, _ := fieldOf(a, aT, "iter")
	idxA, intT := fieldOf(iterA, itT, "index")
	stepA, _ := fieldOf(iterA, itT, "step")
	idx0, step0 := x.load(st, idxA, intT), x.load(st, stepA, intT)
	rest := func(l, i *Term) *Term { return UF("rest", SSeq, l, i) }
	inv := func(l, i, j *Term) []*Term {
		return []*Term{Eq(rest(l, i), rest(L0, j)), Eq(Sub(Len(l), i), Sub(Len(L0), j)), Le(Zero, i), Le(i, Len(l)), Le(Zero, j), Le(j, Len(L0))}
	}
	x.prover = func(x *Exec, st *State, goal *Term) (bool, bool) {
		// the rest of a list from the same index on is the same rest
		if goal.Op == "eq" && goal.A[0].S == "rest" && goal.A[1].S == "rest" {
			if st.pcs[goal] {
				return true, true
			}
			p, q := goal.A[0], goal.A[1]
			if p.A[0] == q.A[0] && x.Prove(st, Eq(p.A[1], q.A[1])) {
				return true, true
			}
			for _, c := range st.pc {
				if c.Op == "eq" && c.A[0].S == "rest" && c.A[1].S == "rest" {
					for k := 0; k < 2; k++ {
						u, v := c.A[k], c.A[1-k]
						for g := 0; g < 2; g++ {
							r, s := goal.A[g], goal.A[1-g]
							if u.A[0] == r.A[0] && v.A[0] == s.A[0] && x.Prove(st, Eq(u.A[1], r.A[1])) && x.Prove(st, Eq(v.A[1], s.A[1])) {
								return true, true
							}
						}
					}
				}
			}
			return true, false
		}
		// elements of a list of nodes are nodes
		if goal.Op == "istype" && goal.A[0].Op == "at" {
			return true, true
		}
		return false, false
	}
	x.loopCands = func(x *Exec, lc *LoopCtx) []*Term {
		l, j := L0, Zero
		var is []*Term
		for s, c := range lc.cellOf {
			switch {
			case c == cell:
				l = s
			case c == ghostJ:
				j = s
			case s.Sort == SInt:
				is = append(is, s)
			}
		}
		for _, s := range lc.vars {
			if s.Sort == SInt && s != j && s.Op == "sym" {
				is = append(is, s)
			}
		}
		var out []*Term
		for _, i := range is {
			out = append(out, inv(l, i, j)...)
		}
		return out
	}
	applied := 0
	m.onCall = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn == nil || fname(ci.fn) != "(*sqlastutil.application).apply" {
			return nil, false
		}
		pos := ci.instr.Pos()
		applied++
		ob := func(what string, ok bool, why string) {
			x.Ob(fname(x.top), "requires:apply", what, ok, why, pos)
		}
		ob("apply is called on the same application, parent and name", ci.args[0] == a && ci.args[1] == parent && ci.args[2] == name, "")
		ob("apply is given the application's iterator", ci.args[3] == iterA, ci.args[3].String())
		cur := st.mem[cell]
		i := st.mem[idxA]
		if i == nil {
			i = idx0
		}
		stp := st.mem[stepA]
		j := st.mem[ghostJ]
		ob("the step is 1 before each element", stp != nil && x.Prove(st, Eq(stp, One)), "")
		goal := Eq(rest(cur, i), rest(L0, j))
		ok := x.Prove(st, goal)
		ob("the elements from the iterator's index on are exactly those not yet visited", ok, whyNot(ok, goal, st))
		inr := x.Prove(st, And(Le(Zero, i), Lt(i, Len(cur)), Eq(Sub(Len(cur), i), Sub(Len(L0), j))))
		ob("the iterator's index is inside the list", inr, pathStr(st))
		nd := ci.args[4]
		okN := nd.Op == "at" && nd.A[0] == cur && x.Prove(st, Eq(nd.A[1], i))
		ob("the node applied is the list's element at the iterator's index", okN, nd.String()+" vs "+cur.String()+"["+i.String()+"]"+pathStr(st))
		// effect
		bad := st.clone()
		L2, i2, s2 := Fresh("L", SSeq, nil), Fresh("index", SInt, intT), Fresh("step", SInt, intT)
		j2 := Add(j, One)
		st.mem[cell] = L2
		m.bump(st, cell)
		st.mem[idxA] = i2
		st.mem[stepA] = s2
		st.mem[ghostJ] = j2
		st.assume(Le(Zero, i2))
		st.assume(Le(Zero, s2))
		for _, c := range inv(L2, Add(i2, s2), j2) {
			st.assume(c)
		}
		return []Outcome{{st: st}, {st: bad, pval: UF("applypanic", SRef)}}, true
	}
	n := 0
	for _, e := range x.Run(f, []*Term{a, parent, name}, nil, st, nil) {
		if e.kind == exPanic {
			x.Ob(fname(f), "no-panic", "applyList panics only when apply does", e.pval == UF("applypanic", SRef), e.pval.String()+pathStr(e.st), f.Pos())
			continue
		}
		n++
		ok := x.Prove(e.st, Eq(e.st.mem[ghostJ], Len(L0)))
		x.Ob(fname(f), "post:all", fmt.Sprintf("return %d: every original element was applied", n), ok, pathStr(e.st), f.Pos())
		okI := x.Prove(e.st, And(Eq(x.load(e.st, idxA, intT), idx0), Eq(x.load(e.st, stepA, intT), step0)))
		x.Ob(fname(f), "post:iter", fmt.Sprintf("return %d: the iterator of the enclosing list is restored", n), okI, pathStr(e.st), f.Pos())
		c := &cursorCtx{}
		why := c.frame(e.st, cell, idxA, stepA, ghostJ)
		x.Ob(fname(f), "frame", fmt.Sprintf("return %d: nothing else is modified", n), why == "", why, f.Pos())
	}
	x.Ob(fname(f), "reachable", "normal return", n > 0, "", f.Pos())
	x.Ob(fname(f), "reachable", "elements are applied", applied > 0, "", f.Pos())
	rep.done(x, f)
}

// ---------- apply, per node type ----------

func checkApply(P *Program, rep *Report) {
	f := P.funcs["(*sqlastutil.application).apply"]
	if f == nil {
		fatalf("no method application.apply")
	}
	pk := P.pkgs["sqlastutil"]
	aT := pk.Type("application").Type()
	cT := pk.Type("Cursor").Type()
	abort := mk("global", SRef, pk.Var("abort").RelString(nil), 0, pk.Var("abort").Type())
	for _, nt := range nodeTypes(P) {
		x := rep.exec(P, rep.prop)
		m := &applyModel{P: P, lists: map[*Term]bool{}}
		x.model = m.model
		x.checkPanics = true
		x.isLog = isEvents
		x.top = f
		x.nodeProver(P, nt)
		st := newState()
		recv := Sym("n", SRef, nt.T)
		node := Box(recv, nt.T)
		structT := nt.T.Underlying().(*types.Pointer).Elem()
		wfAssume(P, x, st, nt, recv)
		a := Sym("a", SRef, types.NewPointer(aT))
		parent := Sym("parent", SRef, f.Params[1].Type())
		name := Sym("name", SStr, f.Params[2].Type())
		iter := Sym("iter", SRef, f.Params[3].Type())
		st.assume(Not(Eq(a, Nil)))
		st.assume(Not(Eq(parent, Nil)))
		st.mem[evCell] = Str("")
		curA, _ := fieldOf(a, aT, "cursor")
		getF := func(st *State, n string) *Term {
			ad, t := fieldOf(curA, cT, n)
			return x.load(st, ad, t)
		}
		cf := []string{"parent", "name", "iter", "node"}
		saved := map[string]*Term{}
		for _, n := range cf {
			saved[n] = getF(st, n)
		}
		fnF := func(n string) *Term {
			ad, t := fieldOf(a, aT, n)
			return x.load(st, ad, t)
		}
		pre, post := fnF("pre"), fnF("post")
		kids := P.kidFields(structT)
		orig := map[string]*Term{}
		for _, k := range kids {
			orig[k.name] = x.load(st, fieldAddr(recv, structT, k.idx), k.T)
		}
		m.onCall = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.fn != nil {
				switch fname(ci.fn) {
				case "(*sqlastutil.application).apply":
					if !x.inStack(fr, ci.fn) {
						return nil, false
					}
					bad := st.clone()
					pushEv(st, UF("apply", SStr, ci.args...))
					m.havocField(P, x, st, recv, structT, kids, ci.args[1], ci.args[2], node)
					return []Outcome{{st: st}, {st: bad, pval: UF("applypanic", SRef)}}, true
				case "(*sqlastutil.application).applyList":
					bad := st.clone()
					pushEv(st, UF("applyList", SStr, ci.args...))
					m.havocField(P, x, st, recv, structT, kids, ci.args[1], ci.args[2], node)
					return []Outcome{{st: st}, {st: bad, pval: UF("applypanic", SRef)}}, true
				}
				return nil, false
			}
			if ci.method == "" && ci.dyn != nil && (ci.dyn == pre || ci.dyn == post) {
				r := Fresh("cont", SBool, nil)
				args := []*Term{ci.dyn, ci.args[0], r}
				for _, n := range cf {
					args = append(args, getF(st, n))
				}
				pushEv(st, UF("callback", SStr, args...))
				bad := st.clone()
				return []Outcome{{st: st, vals: []*Term{r}}, {st: bad, pval: UF("applypanic", SRef)}}, true
			}
			return nil, false
		}
		x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
			ok := isFreshRoot(addr)
			for _, n := range cf {
				ad, _ := fieldOf(curA, cT, n)
				ok = ok || addr == ad
			}
			ok = ok || addr == curA
			x.Ob(fname(f), "frame", "store in "+fname(fr.fn)+" goes to the application's cursor", ok, addr.String(), pos)
		}
		nret := 0
		npost := 0
		for _, e := range x.Run(f, []*Term{a, parent, name, iter, node}, nil, st, nil) {
			evs := pieces(e.st.mem[evCell])
			if e.kind == exPanic && e.pval == UF("applypanic", SRef) {
				continue
			}
			why := ""
			take := func(fn *Term, what string) *Term {
				// the event must be the callback fn seeing the right place
				if len(evs) == 0 || evs[0].S != "callback" || evs[0].A[0] != fn {
					why = "no call of " + what
					return nil
				}
				ev := evs[0]
				evs = evs[1:]
				if ev.A[1] != curA {
					why = what + " is not given the application's cursor"
				}
				want := []*Term{parent, name, iter, node}
				for i, w := range want {
					if why == "" && ev.A[3+i] != w {
						why = what + " sees cursor." + cf[i] + " = " + ev.A[3+i].String() + " instead of " + w.String()
					}
				}
				return ev.A[2]
			}
			restored := func() {
				for _, n := range cf {
					if v := getF(e.st, n); v != saved[n] && why == "" {
						why = "cursor." + n + " is not restored"
					}
				}
			}
			aborted := e.kind == exPanic
			func() {
				preSet := x.Prove(e.st, Not(Eq(pre, Nil)))
				if !preSet && !x.Prove(e.st, Eq(pre, Nil)) {
					why = "whether pre is set was not decided"
					return
				}
				if preSet {
					r := take(pre, "pre")
					if why != "" {
						return
					}
					if x.Prove(e.st, Not(r)) {
						if len(evs) > 0 {
							why = "pre returned false but the traversal continues below the node"
						} else if aborted {
							why = "panics after pre returned false: " + e.pval.String()
						} else {
							restored()
						}
						return
					}
					if !x.Prove(e.st, r) {
						why = "pre's result was not decided"
						return
					}
				}
				// children
				postSet := x.Prove(e.st, Not(Eq(post, Nil)))
				if !postSet && !x.Prove(e.st, Eq(post, Nil)) {
					why = "whether post is set was not decided"
					return
				}
				var ch []*Term
				for len(evs) > 0 && evs[0].S != "callback" {
					ch = append(ch, evs[0])
					evs = evs[1:]
				}
				if why = applyKids(x, e.st, ch, a, node, kids, orig); why != "" {
					return
				}
				if postSet {
					r := take(post, "post")
					if why != "" {
						return
					}
					if aborted {
						if e.pval != Box(x.load(e.st, abort, abort.T.Underlying().(*types.Pointer).Elem()), abort.T.Underlying().(*types.Pointer).Elem()) {
							why = "panics: " + e.pval.String()
						} else if !x.Prove(e.st, Not(r)) {
							why = "aborts although post may have returned true"
						}
						npost++
					} else if !x.Prove(e.st, r) {
						why = "continues although post may have returned false"
					}
				} else if aborted {
					why = "panics: " + e.pval.String()
				}
				if len(evs) > 0 && why == "" {
					why = "further events after post"
				}
				if !aborted && why == "" {
					restored()
				}
			}()
			nret++
			if why != "" {
				why += "\n  events: " + evStr(pieces(e.st.mem[evCell])) + "\n  path: " + pathStr(e.st)
			}
			x.Ob(fname(f), "post:traversal", fmt.Sprintf("Apply of a *sqlast.%s , exit %d: pre, every child once under its field name, post", nt.name, nret), why == "", why, f.Pos())
		}
		x.Ob(fname(f), "reachable", "apply of a *"+nt.name+" has exits, among them the abort", nret > 0 && npost > 0, "", f.Pos())
		rep.done(x, f)
	}
}

// havocField: applying to a field of the node may replace what the field holds.
func (m *applyModel) havocField(P *Program, x *Exec, st *State, recv *Term, T types.Type, kids []kidField, parent, name, node *Term) {
	if parent != node || name.Op != "str" {
		return
	}
	for _, k := range kids {
		if k.name == name.S {
			st.mem[fieldAddr(recv, T, k.idx)] = FreshT("edited", k.T)
		}
	}
}

func applyKids(x *Exec, st *State, evs []*Term, a, node *Term, kids []kidField, orig map[string]*Term) string {
	seen := map[string]bool{}
	for _, e := range evs {
		if e.Op != "uf" || e.S != "apply" && e.S != "applyList" {
			return "unexpected event " + e.String()
		}
		if e.A[0] != a {
			return "a child is applied on another application"
		}
		if e.A[1] != node {
			return "a child is applied with a parent other than the node: " + e.A[1].String()
		}
		nm := e.A[2]
		if nm.Op != "str" {
			return "field name is not a constant"
		}
		var k *kidField
		for i := range kids {
			if kids[i].name == nm.S {
				k = &kids[i]
			}
		}
		if k == nil {
			return "the node has no child field named " + nm.S
		}
		if seen[k.name] {
			return "field " + k.name + " is applied twice"
		}
		seen[k.name] = true
		if k.list != (e.S == "applyList") {
			return "field " + k.name + " is applied with " + e.S
		}
		if k.list {
			continue
		}
		if e.A[3] != Nil {
			return "field " + k.name + " is applied with an iterator"
		}
		if e.A[4] != asNode(orig[k.name], k.T) {
			return "field " + k.name + " is applied with another node: " + e.A[4].String()
		}
		if !x.Prove(st, Not(Eq(orig[k.name], Nil))) {
			return "child " + k.name + " may be nil when it is applied"
		}
	}
	for _, k := range kids {
		if seen[k.name] {
			continue
		}
		if k.list {
			if !x.Prove(st, Eq(Len(orig[k.name]), Zero)) {
				return "list " + k.name + " is not applied"
			}
		} else if !x.Prove(st, Eq(orig[k.name], Nil)) {
			return "child " + k.name + " is not applied"
		}
	}
	return ""
}

// ---------- Apply ----------

func checkApplyTop(P *Program, rep *Report) {
	f := P.funcs["sqlastutil.Apply"]
	if f == nil {
		fatalf("no function sqlastutil.Apply")
	}
	pk := P.pkgs["sqlastutil"]
	aT := pk.Type("application").Type()
	abort := mk("global", SRef, pk.Var("abort").RelString(nil), 0, pk.Var("abort").Type())
	for _, mode := range []string{"return", "abort", "panic"} {
		x := rep.exec(P, rep.prop)
		m := &applyModel{P: P, lists: map[*Term]bool{}}
		x.model = m.model
		x.checkPanics = true
		x.top = f
		st := newState()
		root := Sym("root", SRef, f.Params[0].Type())
		pre := Sym("pre", SRef, f.Params[1].Type())
		post := Sym("post", SRef, f.Params[2].Type())
		st.assume(Not(Eq(root, Nil)))
		abT := abort.T.Underlying().(*types.Pointer).Elem()
		abV := Box(x.load(st, abort, abT), abT)
		other := Sym("clientpanic", SRef, nil)
		st.assume(Not(Eq(other, Nil)))
		st.assume(Not(Eq(other, abV)))
		result := Sym("edited", SRef, f.Params[0].Type())
		calls := 0
		m.onCall = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.fn == nil || fname(ci.fn) != "(*sqlastutil.application).apply" {
				return nil, false
			}
			calls++
			pos := ci.instr.Pos()
			ob := func(what string, ok bool, why string) { x.Ob(fname(f), "requires:apply", what, ok, why, pos) }
			a := ci.args[0]
			get := func(n string) *Term { ad, t := fieldOf(a, aT, n); return x.load(st, ad, t) }
			ob("the application carries pre and post", get("pre") == pre && get("post") == post, get("pre").String())
			ob("the root is applied without iterator", ci.args[3] == Nil && ci.args[4] == root, "")
			par := ci.args[1]
			okP := false
			var cell *Term
			if par.Op == "box" && isFreshRoot(par.A[0]) && ci.args[2].Op == "str" {
				if pt, ok := par.T.Underlying().(*types.Pointer); ok {
					if sT, ok := pt.Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < sT.NumFields(); i++ {
							if sT.Field(i).Name() == ci.args[2].S {
								cell = fieldAddr(par.A[0], pt.Elem(), i)
								okP = x.load(st, cell, sT.Field(i).Type()) == root
							}
						}
					}
				}
			}
			ob("the parent is a wrapper whose field of the given name holds the root", okP, par.String())
			if cell != nil {
				st.mem[cell] = result
			}
			switch mode {
			case "abort":
				return []Outcome{{st: st, pval: abV}}, true
			case "panic":
				return []Outcome{{st: st, pval: other}}, true
			}
			return []Outcome{{st: st}}, true
		}
		n := 0
		for _, e := range x.Run(f, []*Term{root, pre, post}, nil, st, nil) {
			n++
			switch {
			case mode == "panic":
				x.Ob(fname(f), "post:panic", "a panic of pre or post propagates", e.kind == exPanic && e.pval == other, "", f.Pos())
			case e.kind == exPanic:
				x.Ob(fname(f), "no-panic", "Apply returns ("+mode+")", false, e.pval.String()+pathStr(e.st), f.Pos())
			default:
				x.Ob(fname(f), "post:result", "Apply returns what the wrapper holds ("+mode+")", len(e.vals) == 1 && e.vals[0] == result, fmt.Sprint(e.vals), f.Pos())
			}
		}
		x.Ob(fname(f), "reachable", "Apply has an exit ("+mode+") and applies the root once", n > 0 && calls == 1, fmt.Sprint(n, calls), f.Pos())
		rep.done(x, f)
	}
}

func checkC11(P *Program, rep *Report) {
	checkApply(P, rep)
	checkApplyList(P, rep)
	checkApplyTop(P, rep)
	checkCursorReads(P, rep)
}

func checkC12(P *Program, rep *Report) {
	checkCursorEdits(P, rep)
	checkApplyList(P, rep)
	checkCursorReads(P, rep)
}

var _ = ssa.NewProgram
