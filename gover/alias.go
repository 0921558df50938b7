package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// gover treats slices as values. That is right as long as no append writes into memory that
// another live slice shows, which is what this job checks, on the SSA form of every function of a
// package:
//
//   - a slice that is shortened, s[:k] without a capacity, reaches no append, copy or element store
//     (through local variables, fields, arguments and results, flow-insensitively);
//   - no two appends, calls that append to a parameter included, have the same slice value as their
//     base, unless only one of them can run for each time the value is made;
//   - an append to a list that is loaded from a field or global variable goes back to it.

func init() {
	extraJobs["ALIAS"] = (*parseModel).checkAliasing
}

func (m *parseModel) checkAliasing() {
	for _, o := range aliasing(m.P, parserPkg, func(elem types.Type) bool { return aliasRelevant(m.prop, elem) }) {
		m.rep.obs = append(m.rep.obs, o)
	}
}

// aliasRelevant: lists with these elements carry what the property speaks of.
func aliasRelevant(prop string, elem types.Type) bool {
	comment := false
	t := tstr(elem)
	switch t {
	case "*sqlast.Comment", "*sqlast.CommentGroup":
		comment = true
	case "*sqltoken.Token":
		return true
	}
	switch prop {
	case "C13":
		return comment
	case "C17":
		return t == "sqlast.Stmt"
	}
	return !comment
}

type fieldKey struct {
	t string
	i int
}

type aliaser struct {
	P        *Program
	pkg      string
	fns      []*ssa.Function
	short    map[ssa.Value]token.Pos // slices that may be shortened ones
	fields   map[fieldKey]token.Pos
	globals  map[*ssa.Global]token.Pos
	results  map[*ssa.Function]map[int]token.Pos
	consumes map[*ssa.Function]map[int]bool // parameters that are appended to
	changed  bool
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func fieldKeyOf(fa *ssa.FieldAddr) fieldKey {
	return fieldKey{tstr(fa.X.Type()), fa.Field}
}

func (a *aliaser) mark(v ssa.Value, pos token.Pos) {
	if _, ok := a.short[v]; !ok {
		a.short[v] = pos
		a.changed = true
	}
}

// storeTo: a value is stored at an address.
func (a *aliaser) storeTo(addr ssa.Value, pos token.Pos) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k := fieldKeyOf(x)
		if _, ok := a.fields[k]; !ok {
			a.fields[k] = pos
			a.changed = true
		}
	case *ssa.Global:
		if _, ok := a.globals[x]; !ok {
			a.globals[x] = pos
			a.changed = true
		}
	default:
		a.mark(addr, pos) // a local cell
	}
}

func (a *aliaser) loadFrom(addr ssa.Value) (token.Pos, bool) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		p, ok := a.fields[fieldKeyOf(x)]
		return p, ok
	case *ssa.Global:
		p, ok := a.globals[x]
		return p, ok
	}
	p, ok := a.short[addr]
	return p, ok
}

func isLenOf(v, s ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == s
}

func builtinOf(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (a *aliaser) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Slice:
				if sliceElem(x.X.Type()) == nil {
					continue
				}
				if x.High != nil && x.Max == nil && !isLenOf(x.High, x.X) {
					a.mark(x, x.Pos())
				} else if p, ok := a.short[x.X]; ok && x.Max == nil {
					a.mark(x, p)
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					if p, ok := a.short[e]; ok {
						a.mark(x, p)
					}
				}
			case *ssa.ChangeType:
				if p, ok := a.short[x.X]; ok {
					a.mark(x, p)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && sliceElem(x.Type()) != nil {
					if p, ok := a.loadFrom(x.X); ok {
						a.mark(x, p)
					}
				}
			case *ssa.Store:
				if p, ok := a.short[x.Val]; ok {
					a.storeTo(x.Addr, p)
				}
			case *ssa.Field:
				if st, ok := x.X.Type().Underlying().(*types.Struct); ok && sliceElem(st.Field(x.Field).Type()) != nil {
					if p, ok := a.fields[fieldKey{"*" + tstr(x.X.Type()), x.Field}]; ok {
						a.mark(x, p)
					}
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, v := range x.Bindings {
					if p, ok := a.short[v]; ok {
						a.mark(g.FreeVars[i], p)
					}
					if p, ok := a.short[g.FreeVars[i]]; ok {
						a.mark(v, p)
					}
				}
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil {
						if p, ok := a.results[g][x.Index]; ok {
							a.mark(x, p)
						}
					}
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if p, ok := a.short[v]; ok {
						if a.results[f] == nil {
							a.results[f] = map[int]token.Pos{}
						}
						if _, ok := a.results[f][i]; !ok {
							a.results[f][i] = p
							a.changed = true
						}
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if g := cc.StaticCallee(); g != nil {
					for i, v := range cc.Args {
						if p, ok := a.short[v]; ok && i < len(g.Params) {
							a.mark(g.Params[i], p)
						}
						if i < len(g.Params) && a.consumes[g][i] {
							a.consume(f, v)
						}
					}
					if v := c.Value(); v != nil && g.Signature.Results().Len() == 1 {
						if p, ok := a.results[g][0]; ok {
							a.mark(v, p)
						}
					}
				}
				if builtinOf(cc) == "append" {
					a.consume(f, cc.Args[0])
				}
			}
		}
	}
}

// consume: v is the base of an append in f.
func (a *aliaser) consume(f *ssa.Function, v ssa.Value) {
	for i, p := range f.Params {
		if v == p {
			if a.consumes[f] == nil {
				a.consumes[f] = map[int]bool{}
			}
			if !a.consumes[f][i] {
				a.consumes[f][i] = true
				a.changed = true
			}
		}
	}
}

// fresh: appending to v always copies, or nothing else can see it.
func freshBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice: // a composite literal or the elements of a variadic call
		al, ok := x.X.(*ssa.Alloc)
		if ok && al != nil && x.Low == nil && x.High == nil {
			return true
		}
		return x.Max != nil && x.High != nil && (x.Max == x.High || isLenOf(x.High, x.X) && isLenOf(x.Max, x.X))
	}
	return false
}

// baseOf: the slice of which v is a part.
func baseOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			if sliceElem(x.X.Type()) == nil || x.Max != nil {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// A use is an append to v, a call that appends to v, or an edge on which v enters a phi that is appended to.
type sliceUse struct {
	in   ssa.Instruction // the append or the call
	phi  *ssa.Phi
	pred int // the edge's index
	v    ssa.Value
	pos  token.Pos
}

// again: whether control can get from use p to use q (or to p again) without passing the place where v is made.
func again(p, q sliceUse, v ssa.Value) bool {
	if p.phi != nil && q.phi != nil && p.phi != q.phi && p.phi.Block() == q.phi.Block() && p.pred == q.pred {
		return true
	}
	d, _ := v.(ssa.Instruction)
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	var work []at
	if p.phi != nil {
		work = append(work, at{p.phi.Block(), 0})
	} else {
		for i, x := range p.in.Block().Instrs {
			if x == p.in {
				work = append(work, at{p.in.Block(), i + 1})
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for i := w.i; i < len(w.b.Instrs) && !stop; i++ {
			if q.in != nil && w.b.Instrs[i] == q.in {
				return true
			}
			stop = d != nil && w.b.Instrs[i] == d
		}
		if stop {
			continue
		}
		for _, s := range w.b.Succs {
			if q.phi != nil && q.phi.Block() == s && s.Preds[q.pred] == w.b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, at{s, 0})
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && x.Field == y.Field {
		if sameAddr(x.X, y.X) {
			return true
		}
		lx, ok1 := x.X.(*ssa.UnOp)
		ly, ok2 := y.X.(*ssa.UnOp)
		return ok1 && ok2 && lx.Op == token.MUL && ly.Op == token.MUL && sameAddr(lx.X, ly.X)
	}
	return false
}

// goesBack: the result of the append is stored where its base came from, possibly after more appends.
func goesBack(v ssa.Value, addr ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v && sameAddr(x.Addr, addr) {
				return true
			}
		case *ssa.Phi:
			if goesBack(x, addr, seen) {
				return true
			}
		case *ssa.Call:
			if builtinOf(&x.Call) == "append" && x.Call.Args[0] == v && goesBack(x, addr, seen) {
				return true
			}
		}
	}
	return false
}

func aliasing(P *Program, pkg string, relevant func(types.Type) bool) []*Obligation {
	a := &aliaser{P: P, pkg: pkg, short: map[ssa.Value]token.Pos{}, fields: map[fieldKey]token.Pos{}, globals: map[*ssa.Global]token.Pos{}, results: map[*ssa.Function]map[int]token.Pos{}, consumes: map[*ssa.Function]map[int]bool{}}
	for _, f := range P.allFuncs() {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == pkg && f.Name() != "init" {
			a.fns = append(a.fns, f)
		}
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
	for {
		a.changed = false
		for _, f := range a.fns {
			a.flow(f)
		}
		if !a.changed {
			break
		}
	}
	where := func(p token.Pos) string { q := P.prog.Fset.Position(p); return fmt.Sprintf("line %d", q.Line) }
	var obs []*Obligation
	for _, f := range a.fns {
		why, at := "", token.NoPos
		bad := func(p token.Pos, format string, args ...interface{}) {
			if why == "" {
				why, at = fmt.Sprintf(format, args...), p
			}
		}
		var uses []sliceUse
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						if e := sliceElem(ia.X.Type()); e != nil && relevant(e) {
							n++
							if p, ok := a.short[ia.X]; ok {
								bad(in.Pos(), "an element of a slice of another list, made at %s, is overwritten", where(p))
							}
						}
					}
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				switch builtinOf(cc) {
				case "append", "copy":
					e := sliceElem(cc.Args[0].Type())
					if e == nil || !relevant(e) {
						continue
					}
					n++
					if p, ok := a.short[cc.Args[0]]; ok {
						bad(in.Pos(), "what is written here may be the memory of a list that was shortened at %s", where(p))
					}
					if builtinOf(cc) == "append" {
						uses = append(uses, sliceUse{in: in, v: cc.Args[0], pos: in.Pos()})
					}
				case "":
					if g := cc.StaticCallee(); g != nil {
						for i, v := range cc.Args {
							if e := sliceElem(v.Type()); e != nil && relevant(e) && a.consumes[g][i] {
								uses = append(uses, sliceUse{in: in, v: v, pos: in.Pos()})
							}
						}
					}
				}
			}
		}
		// a phi that is appended to: what enters it is used there
		eaten := map[*ssa.Phi]bool{}
		for i := 0; i < len(uses); i++ {
			phi, ok := baseOf(uses[i].v).(*ssa.Phi)
			if !ok || eaten[phi] {
				continue
			}
			eaten[phi] = true
			for k, e := range phi.Edges {
				if e != ssa.Value(phi) {
					uses = append(uses, sliceUse{phi: phi, pred: k, v: e, pos: uses[i].pos})
				}
			}
		}
		for _, u := range uses {
			v := baseOf(u.v)
			if freshBase(v) {
				continue
			}
			for _, w := range uses {
				if baseOf(w.v) == v && again(u, w, v) {
					bad(u.pos, "the same list is appended to at %s and at %s", where(u.pos), where(w.pos))
				}
			}
			if u.phi != nil {
				continue
			}
			if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if _, local := ld.X.(*ssa.Alloc); local {
					continue
				}
				if r, ok := u.in.(ssa.Value); !ok || !goesBack(r, ld.X, map[ssa.Value]bool{}) {
					bad(u.pos, "a list is appended to and the result goes elsewhere")
				}
			}
		}
		if n > 0 {
			o := &Obligation{Fn: fname(f), Kind: "aliasing", Detail: "the lists that " + f.Name() + " extends share no memory with other lists", OK: why == "", Why: why}
			if at.IsValid() {
				o.Pos = P.prog.Fset.Position(at).String()
			}
			obs = append(obs, o)
		}
	}
	return obs
}
