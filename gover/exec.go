package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation and its outcome.
type Obligation struct {
	Prop   string
	Fn     string
	Kind   string
	Detail string
	Pos    string
	OK     bool
	Why    string
}

func (o *Obligation) Key() string { return o.Fn + "/" + o.Kind + "/" + o.Detail }

type State struct {
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	pc     []*Term
	gh     []*Term // ghost facts: kept from the solver
	pcs    map[*Term]bool
	eqc    map[*Term]*Term // terms known equal to a constant
	defers []*Term
	trace  []string
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, pcs: map[*Term]bool{}, eqc: map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)+4), mem: make(map[*Term]*Term, len(s.mem)+4), pcs: make(map[*Term]bool, len(s.pcs)+4), eqc: make(map[*Term]*Term, len(s.eqc)+4)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.pcs {
		n.pcs[k] = v
	}
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	n.pc = append([]*Term(nil), s.pc...)
	n.gh = append([]*Term(nil), s.gh...)
	n.defers = append([]*Term(nil), s.defers...)
	n.trace = append([]string(nil), s.trace...)
	return n
}

func (s *State) assume(c *Term) {
	if c == True || s.pcs[c] {
		return
	}
	if c.Op == "and" {
		for _, a := range c.A {
			s.assume(a)
		}
		return
	}
	s.pcs[c] = true
	if containsPred(c) {
		s.gh = append(s.gh, c)
		return
	}
	s.pc = append(s.pc, c)
	if t, k := eqConst(c); t != nil {
		s.eqc[t] = k
	}
}

// eqConst: c as "t equals the constant k"
func eqConst(c *Term) (t, k *Term) {
	switch c.Op {
	case "eq":
		for i := 0; i < 2; i++ {
			if c.A[i].Op == "str" {
				return c.A[1-i], c.A[i]
			}
		}
	case "eq0":
		l := c.A[0]
		switch {
		case l.Op == "+" && len(l.A) == 2 && l.A[0].Op == "int" && l.A[1].Op != "*c":
			return l.A[1], Int(-l.A[0].I)
		case l.Op == "+" && len(l.A) == 2 && l.A[1].Op == "int" && l.A[0].Op != "*c":
			return l.A[0], Int(-l.A[1].I)
		case l.Op == "uf" || l.Op == "fld" || l.Op == "sym":
			return l, Zero
		}
	}
	return nil, nil
}

// syntactic evaluation under the path condition
func (s *State) eval(c *Term) *Term {
	if c == True || c == False {
		return c
	}
	if s.pcs[c] {
		return True
	}
	if s.pcs[Not(c)] {
		return False
	}
	if c.Op == "not" {
		if e := s.eval(c.A[0]); e == True || e == False {
			return Not(e)
		}
		return c
	}
	if t, k := eqConst(c); t != nil {
		if v, ok := s.eqc[t]; ok {
			return Bool(v == k)
		}
	}
	return c
}

type exitKind int

const (
	exRet exitKind = iota
	exPanic
	exEdge
)

type Exit struct {
	kind     exitKind
	st       *State
	vals     []*Term
	pval     *Term // panic value
	from, to *ssa.BasicBlock
}

type CallInfo struct {
	instr  ssa.CallInstruction
	fn     *ssa.Function // static callee, if any
	method string        // invoked method name for interface calls
	recv   *Term         // receiver for interface calls
	args   []*Term       // static: all args including receiver
	name   string
	sig    *types.Signature
	dyn    *Term // dynamic function value
}

type Outcome struct {
	st   *State
	vals []*Term
	pval *Term // non-nil: panics
}

type Frame struct {
	fn     *ssa.Function
	depth  int
	parent *Frame
	top    bool
	binds  []*Term
}

type Exec struct {
	peel int // iterations of every loop that are executed apart from its invariant

	P    *Program
	sol  *Solver
	prop string
	obs  []*Obligation
	mute int // >0: do not record obligations (trial runs)

	checkPanics bool
	keep        func(kind string) bool // kinds of obligations that matter
	inlineMax   int
	top         *ssa.Function

	// hooks
	model      func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool)
	onStore    func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos)
	loopCands  func(x *Exec, lc *LoopCtx) []*Term
	prover     func(x *Exec, st *State, goal *Term) (bool, bool) // handled, proved
	isLog      func(addr *Term) bool
	eagerCells func(p *ssa.Phi, s *Term) (*Term, types.Type) // a cell behind a loop variable that matters even if no iteration writes it
	onLoop     func(x *Exec, fr *Frame, lc *LoopCtx, head *State, backs []Exit)
	loadHook   func(x *Exec, st *State, addr *Term, t types.Type) *Term
	onMake     func(st *State, s *Term)
	onLookup   func(st *State, mp, k, v, ok *Term)
	onRange    func(st *State, mp, k *Term)
	onRangeVal func(st *State, ok, v *Term)
	onBranch   func(x *Exec, fr *Frame, st *State, cond *Term, pos token.Pos)
	lex        *lexSetup
	eofErr     *Term
	inlined    map[string]bool
	assumed    map[string]bool
	steps      int
	maxSteps   int
	paths      int
}

func NewExec0(P *Program, prop string, sol *Solver) *Exec {
	return &Exec{P: P, sol: sol, prop: prop, inlineMax: 12, inlined: map[string]bool{}, assumed: map[string]bool{}, maxSteps: 4000000}
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.P.prog.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Ob records an obligation's outcome.
func (x *Exec) Ob(fn, kind, detail string, ok bool, why string, pos token.Pos) {
	if x.mute > 0 || x.keep != nil && !x.keep(kind) {
		return
	}
	x.obs = append(x.obs, &Obligation{Prop: x.prop, Fn: fn, Kind: kind, Detail: detail, OK: ok, Why: why, Pos: x.posStr(pos)})
}

// Prove: does the state entail the goal?
func (x *Exec) Prove(st *State, goal *Term) bool {
	goal = st.eval(goal)
	if goal == True {
		return true
	}
	if goal.Op == "and" {
		for _, g := range goal.A {
			if !x.Prove(st, g) {
				return false
			}
		}
		return true
	}
	if x.prover != nil {
		if h, ok := x.prover(x, st, goal); h {
			return ok
		}
	}
	return x.sol.Valid(st.pc, goal)
}

func (x *Exec) feasible(st *State, c *Term) bool {
	c = st.eval(c)
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	return x.sol.Feasible(st.pc, c)
}

// require: obligation that cond holds; afterwards it is assumed.
func (x *Exec) require(fr *Frame, st *State, cond *Term, kind, detail string, pos token.Pos) {
	if st.eval(cond) == True {
		return
	}
	if x.checkPanics {
		ok := x.Prove(st, cond)
		why := ""
		if !ok {
			why = "not provable: " + cond.String() + "\n  path: " + pathStr(st)
		}
		x.Ob(fname(x.top), kind, detail, ok, why, pos)
	}
	st.assume(cond)
}

func pathStr(st *State) string {
	var b strings.Builder
	for _, c := range st.pc {
		b.WriteString("\n    " + c.String())
	}
	return b.String()
}

// ---------- memory ----------

var allocSeq int64

func newAlloc(t types.Type) *Term {
	allocSeq++
	return mk("alloc", SRef, "", allocSeq, t)
}

func root(addr *Term) *Term {
	for addr.Op == "addr.f" || addr.Op == "addr.i" {
		addr = addr.A[0]
	}
	return addr
}

func isFreshRoot(addr *Term) bool { return root(addr).Op == "alloc" }

func fieldAddr(base *Term, structT types.Type, i int) *Term {
	st := structT.Underlying().(*types.Struct)
	return mk("addr.f", SRef, tstr(structT)+"."+st.Field(i).Name(), int64(i), types.NewPointer(st.Field(i).Type()), base)
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Zero
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return mk("float", SFloat, "0", 0, t)
		}
		return Nil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zero(u.Field(i).Type()))
		}
		return Struct(t, fs...)
	case *types.Slice:
		if isByte(u.Elem()) {
			return mk("str", SStr, "", 1, t) // nil byte slice
		}
		return NilSeq
	case *types.Array:
		return UF("zeroarr:"+tstr(t), SStruct)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zero(u.At(i).Type()))
		}
		return mk("tuple", STuple, "", 0, nil, fs...)
	}
	return Nil
}

// structOf: t as a struct with fields; reflect.Value is opaque.
func structOf(t types.Type) (*types.Struct, bool) {
	if tstr(t) == "reflect.Value" {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (x *Exec) load(st *State, addr *Term, t types.Type) *Term {
	if x.loadHook != nil {
		if v := x.loadHook(x, st, addr, t); v != nil {
			return v
		}
	}
	if s, ok := structOf(t); ok {
		if v, ok := st.mem[addr]; ok {
			return v
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, x.load(st, fieldAddr(addr, t, i), s.Field(i).Type()))
		}
		return Struct(t, fs...)
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	r := root(addr)
	if r.Op == "alloc" {
		if gi := x.P.ginfo; gi != nil {
			if v, ok := gi.mem[addr]; ok {
				return v
			}
		}
		if v, ok := st.mem[UF("havocobj", SRef, r)]; ok {
			return UF("hv:"+addr.S, sortOf(t), v, addr)
		}
		return zero(t)
	}
	// possible aliasing with cells written through another symbolic base
	if addr.Op == "addr.f" {
		v := mk("fld", sortOf(t), addr.S, addr.I, t, addr.A[0])
		for _, a := range sortedMem(st.mem) {
			if a.Op == "addr.f" && a.S == addr.S && a.I == addr.I && root(a).Op != "alloc" && a != addr {
				if !x.Prove(st, Not(Eq(a.A[0], addr.A[0]))) {
					v = Ite(Eq(a.A[0], addr.A[0]), st.mem[a], v)
				}
			}
		}
		return v
	}
	if addr.Op == "global" {
		if v, ok := x.P.globals().vals[addr]; ok {
			return v
		}
		return mk("gval", sortOf(t), addr.S, 0, t)
	}
	if addr.Op == "addr.i" {
		if addr.A[0].Sort == SSeq {
			return At(addr.A[0], addr.A[1], sortOf(t), t)
		}
		if addr.A[0].Sort == SStr {
			return UF("byteat", SInt, addr.A[0], addr.A[1])
		}
		return mk("elem", sortOf(t), "", 0, t, addr.A[0], addr.A[1])
	}
	return mk("deref", sortOf(t), tstr(t), 0, t, addr)
}

func (x *Exec) store(fr *Frame, st *State, addr, val *Term, t types.Type, pos token.Pos) {
	if x.onStore != nil {
		x.onStore(x, fr, st, addr, val, pos)
	}
	if addr.Op == "addr.i" && addr.A[0].Sort == SSeq {
		x.Ob(fname(x.top), "unsupported", "store to an element of a slice in "+fname(fr.fn), false, "slices are modelled as values", pos)
	}
	x.store0(st, addr, val, t)
}

func (x *Exec) store0(st *State, addr, val *Term, t types.Type) {
	if s, ok := structOf(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			x.store0(st, fieldAddr(addr, t, i), Sel(val, i, sortOf(ft), ft), ft)
		}
		return
	}
	if addr.Op == "addr.f" && root(addr).Op != "alloc" {
		for _, a := range sortedMem(st.mem) {
			if a.Op == "addr.f" && a.S == addr.S && a.I == addr.I && root(a).Op != "alloc" && a != addr {
				if !x.Prove(st, Not(Eq(a.A[0], addr.A[0]))) {
					st.mem[a] = Ite(Eq(a.A[0], addr.A[0]), val, st.mem[a])
				}
			}
		}
	}
	st.mem[addr] = val
}

// ---------- values ----------

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mk("global", SRef, v.RelString(nil), 0, v.Type())
	case *ssa.Function:
		return mk("func", SRef, fname(v), 0, v.Type())
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return mk("func", SRef, "builtin."+v.Name(), 0, nil)
	}
	if t, ok := st.env[v]; ok {
		for t.Op == "ite" {
			c := st.eval(t.A[0])
			if c == True {
				t = t.A[1]
			} else if c == False {
				t = t.A[2]
			} else {
				break
			}
		}
		return t
	}
	return FreshT("undef:"+v.Name(), v.Type())
}

func constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk("float", SFloat, c.Value.ExactString(), 0, t)
		}
		i, ok := constant.Int64Val(c.Value)
		if !ok {
			return UF("bigint:"+c.Value.ExactString(), SInt)
		}
		return Int(i)
	}
	return mk("float", SFloat, c.Value.ExactString(), 0, t)
}

// ---------- running ----------

// Run executes fn on args from st; returns all exits (returns and panics).
func (x *Exec) Run(fn *ssa.Function, args []*Term, binds []*Term, st *State, parent *Frame) []Exit {
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	fr := &Frame{fn: fn, depth: depth, parent: parent, top: parent == nil, binds: binds}
	st.env = map[ssa.Value]*Term{}
	saveDef := st.defers
	st.defers = nil
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	exits := x.region(fr, st, fn.Blocks[0], nil, nil)
	var out []Exit
	for _, e := range exits {
		if e.kind == exPanic && len(e.st.defers) > 0 {
			out = append(out, x.runDefersOnPanic(fr, e)...)
			continue
		}
		out = append(out, e)
	}
	for i := range out {
		out[i].st.defers = saveDef
	}
	return out
}

func (x *Exec) runDefersOnPanic(fr *Frame, e Exit) []Exit {
	st := e.st
	key := UF("ghost.panicking", SRef)
	st.mem[key] = e.pval
	ds := st.defers
	st.defers = nil
	states := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*State
		for _, s := range states {
			env := s.env
			ci := x.deferCall(ds[i])
			for _, o := range x.call(fr, s, ci) {
				if o.pval != nil {
					o.st.mem[key] = o.pval
				}
				o.st.env = cloneEnv(env)
				next = append(next, o.st)
			}
		}
		states = next
	}
	var out []Exit
	for _, s := range states {
		pv := s.mem[key]
		delete(s.mem, key)
		if pv != Nil {
			out = append(out, Exit{kind: exPanic, st: s, pval: pv})
			continue
		}
		if fr.fn.Recover == nil {
			var vals []*Term
			for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
				vals = append(vals, zero(fr.fn.Signature.Results().At(i).Type()))
			}
			out = append(out, Exit{kind: exRet, st: s, vals: vals})
			continue
		}
		out = append(out, x.region(fr, s, fr.fn.Recover, nil, nil)...)
	}
	return out
}

func (x *Exec) deferCall(d *Term) *CallInfo {
	return &CallInfo{dyn: d.A[0], args: d.A[1:], name: "defer"}
}

func cloneEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

type work struct {
	st        *State
	blk, pred *ssa.BasicBlock
	idx       int
}

// region runs from blk (entered from pred) until function exit or an edge leaving the loop
// region (or returning to its header).
func (x *Exec) region(fr *Frame, st *State, blk, pred *ssa.BasicBlock, lp *Loop) []Exit {
	return x.regionAt(fr, st, blk, pred, lp, -1)
}

func (x *Exec) regionAt(fr *Frame, st *State, blk, pred *ssa.BasicBlock, lp *Loop, startIdx int) []Exit {
	var exits []Exit
	li := x.P.loopsOf(fr.fn)
	stack := []work{{st, blk, pred, startIdx}}
	goTo := func(s *State, from, to *ssa.BasicBlock) {
		if lp != nil {
			if to == lp.header || !lp.blocks[to] {
				exits = append(exits, Exit{kind: exEdge, st: s, from: from, to: to})
				return
			}
		}
		if l := li.byHeader[to]; l != nil && (lp == nil || l != lp) {
			for _, e := range x.loop(fr, s, l, from) {
				if e.kind == exEdge {
					stack = append(stack, work{e.st, e.to, e.from, -2})
				} else {
					exits = append(exits, e)
				}
			}
			return
		}
		stack = append(stack, work{s, to, from, -1})
	}
	for len(stack) > 0 {
		w := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if w.idx == -2 { // edge out of an inner loop: apply region policy
			goTo(w.st, w.pred, w.blk)
			continue
		}
		s, b := w.st, w.blk
		i := w.idx
		if i < 0 {
			if w.pred != nil {
				x.doPhis(fr, s, b, w.pred)
			}
			i = 0
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); ok {
					i++
				} else {
					break
				}
			}
		}
		states := []work{{s, b, nil, i}}
		for len(states) > 0 {
			cw := states[len(states)-1]
			states = states[:len(states)-1]
			s, i := cw.st, cw.idx
		instrs:
			for ; i < len(b.Instrs); i++ {
				x.steps++
				if x.steps > x.maxSteps {
					fatalf("step budget exceeded in %s", fname(x.top))
				}
				switch in := b.Instrs[i].(type) {
				case *ssa.If:
					c := x.val(fr, s, in.Cond)
					if x.onBranch != nil && c != True && c != False {
						x.onBranch(x, fr, s, c, in.Cond.Pos())
					}
					c = s.eval(c)
					tOK, fOK := c != False, c != True
					if tOK && fOK {
						tOK = x.feasible(s, c)
						if tOK {
							fOK = x.feasible(s, Not(c))
						}
					}
					if tOK && fOK {
						x.paths++
						s2 := s.clone()
						s2.assume(Not(c))
						s.assume(c)
						goTo(s2, b, b.Succs[1])
						goTo(s, b, b.Succs[0])
					} else if tOK {
						s.assume(c)
						goTo(s, b, b.Succs[0])
					} else if fOK {
						s.assume(Not(c))
						goTo(s, b, b.Succs[1])
					}
					break instrs
				case *ssa.Jump:
					goTo(s, b, b.Succs[0])
					break instrs
				case *ssa.Return:
					var vals []*Term
					for _, r := range in.Results {
						vals = append(vals, x.val(fr, s, r))
					}
					exits = append(exits, Exit{kind: exRet, st: s, vals: vals})
					break instrs
				case *ssa.Panic:
					exits = append(exits, Exit{kind: exPanic, st: s, pval: x.val(fr, s, in.X)})
					break instrs
				case *ssa.Call:
					ci := x.callInfo(fr, s, in)
					env := s.env
					outs := x.call(fr, s, ci)
					for k, o := range outs {
						if k == len(outs)-1 {
							o.st.env = env
						} else {
							o.st.env = cloneEnv(env)
						}
						if o.pval != nil {
							exits = append(exits, Exit{kind: exPanic, st: o.st, pval: o.pval})
							continue
						}
						o.st.env[in] = resultTerm(in, o.vals)
						states = append(states, work{o.st, b, nil, i + 1})
					}
					break instrs
				case *ssa.RunDefers:
					sts := []*State{s}
					for len(s.defers) > 0 && len(sts) > 0 {
						// all states share the same number of defers here
						n := len(sts[0].defers)
						if n == 0 {
							break
						}
						var next []*State
						for _, q := range sts {
							d := q.defers[n-1]
							q.defers = append([]*Term(nil), q.defers[:n-1]...)
							env := q.env
							for _, o := range x.call(fr, q, x.deferCall(d)) {
								o.st.env = cloneEnv(env)
								if o.pval != nil {
									exits = append(exits, Exit{kind: exPanic, st: o.st, pval: o.pval})
									continue
								}
								next = append(next, o.st)
							}
						}
						sts = next
						if len(sts) == 0 || len(sts[0].defers) == 0 {
							break
						}
					}
					for _, q := range sts {
						states = append(states, work{q, b, nil, i + 1})
					}
					break instrs
				default:
					if !x.step(fr, s, in) {
						break instrs
					}
				}
			}
		}
	}
	return exits
}

func resultTerm(in *ssa.Call, vals []*Term) *Term {
	n := in.Call.Signature().Results().Len()
	if n == 0 {
		return Nil
	}
	if n == 1 {
		return vals[0]
	}
	return mk("tuple", STuple, "", 0, nil, vals...)
}

func (x *Exec) doPhis(fr *Frame, st *State, b, pred *ssa.BasicBlock) {
	k := -1
	for i, p := range b.Preds {
		if p == pred {
			k = i
		}
	}
	if k < 0 {
		return
	}
	var vs []*Term
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.val(fr, st, p.Edges[k]))
		ph = append(ph, p)
	}
	for i, p := range ph {
		st.env[p] = vs[i]
	}
}

func (x *Exec) callInfo(fr *Frame, st *State, in ssa.CallInstruction) *CallInfo {
	c := in.Common()
	ci := &CallInfo{instr: in, sig: c.Signature()}
	for _, a := range c.Args {
		ci.args = append(ci.args, x.val(fr, st, a))
	}
	if c.IsInvoke() {
		ci.method = c.Method.Name()
		ci.recv = x.val(fr, st, c.Value)
		ci.name = "invoke " + tstr(c.Value.Type()) + "." + ci.method
		if ci.recv.Op == "box" {
			if f := x.P.method(ci.recv.T, ci.method); f != nil {
				ci.fn = f
			}
		}
		return ci
	}
	if f := c.StaticCallee(); f != nil {
		ci.fn = f
		ci.name = fname(f)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			ci.dyn = x.val(fr, st, mc)
		}
		return ci
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.name = "builtin." + b.Name()
		return ci
	}
	ci.dyn = x.val(fr, st, c.Value)
	ci.name = "dynamic"
	return ci
}

func (x *Exec) inStack(fr *Frame, f *ssa.Function) bool {
	for ; fr != nil; fr = fr.parent {
		if fr.fn == f {
			return true
		}
	}
	return false
}

func (x *Exec) freshResults(ci *CallInfo) []*Term {
	var vals []*Term
	if ci.sig == nil {
		return nil
	}
	for i := 0; i < ci.sig.Results().Len(); i++ {
		vals = append(vals, FreshT(shortName(ci.name), ci.sig.Results().At(i).Type()))
	}
	return vals
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

var closureFns = map[string]*ssa.Function{}

func (x *Exec) call(fr *Frame, st *State, ci *CallInfo) []Outcome {
	if ci.fn == nil && ci.dyn != nil {
		switch ci.dyn.Op {
		case "closure", "func":
			if f, ok := closureFns[ci.dyn.S]; ok {
				ci.fn = f
				ci.name = fname(f)
			} else if f, ok := x.P.funcs[ci.dyn.S]; ok {
				ci.fn = f
				ci.name = fname(f)
			}
			if ci.fn != nil {
				ci.sig = ci.fn.Signature
			}
		}
	}
	if x.model != nil {
		if outs, ok := x.model(x, fr, st, ci); ok {
			return outs
		}
	}
	if outs, ok := x.stdModel(fr, st, ci); ok {
		return outs
	}
	f := ci.fn
	args := ci.args
	if ci.method != "" {
		if f == nil {
			x.assumed["unmodelled interface call "+ci.name] = true
			return []Outcome{{st: st, vals: x.freshResults(ci)}}
		}
		args = append([]*Term{Unbox(ci.recv, ci.recv.T)}, ci.args...)
	}
	if f == nil || len(f.Blocks) == 0 || f.Pkg == nil && f.Synthetic == "" || (f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)) {
		x.assumed["external "+ci.name+" treated as returning any value without touching modelled state"] = true
		return []Outcome{{st: st, vals: x.freshResults(ci)}}
	}
	if fr.depth >= x.inlineMax || x.inStack(fr, f) {
		x.Ob(fname(x.top), "unsupported", "call of "+ci.name+" (recursive or too deep, no contract)", false, "no contract", token.NoPos)
		return []Outcome{{st: st, vals: x.freshResults(ci)}}
	}
	x.inlined[fname(f)] = true
	var binds []*Term
	if ci.dyn != nil && ci.dyn.Op == "closure" {
		binds = ci.dyn.A
	}
	var outs []Outcome
	var before *State
	if v, ok := ci.instr.(*ssa.Call); ok && feedsLoop(v) {
		before = st.clone()
	}
	for _, e := range x.Run(f, args, binds, st, fr) {
		if e.kind == exPanic {
			outs = append(outs, Outcome{st: e.st, pval: e.pval})
		} else {
			outs = append(outs, Outcome{st: e.st, vals: e.vals})
		}
	}
	if before != nil {
		if m := x.mergePure(before, outs); m != nil {
			return m
		}
	}
	return outs
}

// mergePure: a call without effects whose numeric result goes round a loop of the caller is one
// outcome, whose value is a conditional over the paths. The paths' conditions are over what was
// known before the call, and exclude each other.
func (x *Exec) mergePure(st *State, outs []Outcome) []Outcome {
	if len(outs) < 3 {
		return nil
	}
	n := len(outs[0].vals)
	var rest []*Term
	var conds, vals []*Term
	for _, o := range outs {
		if o.pval != nil || len(o.vals) != n || n == 0 || o.vals[0].Op != "int" || len(o.st.pc) < len(st.pc) || len(o.st.gh) != len(st.gh) || len(o.st.defers) != len(st.defers) {
			return nil
		}
		if rest == nil {
			rest = o.vals[1:]
		}
		for i, r := range o.vals[1:] {
			if r != rest[i] {
				return nil
			}
		}
		for i, c := range st.pc {
			if o.st.pc[i] != c {
				return nil
			}
		}
		for a, t := range o.st.mem {
			if st.mem[a] != t && root(a).Op != "alloc" {
				return nil
			}
		}
		for a, t := range st.mem {
			if o.st.mem[a] != t {
				return nil
			}
		}
	}
	// what all paths know comes first
	common := len(outs[0].st.pc)
	for _, o := range outs[1:] {
		k := len(st.pc)
		for k < common && k < len(o.st.pc) && o.st.pc[k] == outs[0].st.pc[k] {
			k++
		}
		common = k
	}
	known := map[*Term]bool{}
	for _, c := range outs[0].st.pc[:common] {
		for s := range symsOf(c, symMemo) {
			known[s] = true
		}
	}
	for _, o := range outs {
		c := And(o.st.pc[common:]...)
		for s := range symsOf(c, symMemo) {
			if s.Op == "sym" && !known[s] {
				return nil
			}
		}
		conds = append(conds, c)
		vals = append(vals, o.vals[0])
	}
	m := st.clone()
	for _, c := range outs[0].st.pc[len(st.pc):common] {
		m.assume(c)
	}
	for i := range conds {
		for j := i + 1; j < len(conds); j++ {
			if vals[i] != vals[j] && !x.sol.Valid(m.pc, Not(And(conds[i], conds[j]))) {
				return nil
			}
		}
	}
	m.assume(Or(conds...))
	val := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		val = Ite(conds[i], vals[i], val)
	}
	return []Outcome{{st: m, vals: append([]*Term{val}, rest...)}}
}

// feedsLoop: the call's value, or a part of it, enters a phi at the head of a loop.
func feedsLoop(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Extract:
			if r.Index == 0 && feedsLoop(r) {
				return true
			}
		case *ssa.Phi:
			for _, p := range r.Block().Preds {
				if r.Block().Dominates(p) {
					return true
				}
			}
		}
	}
	return false
}

func sortedMem(m map[*Term]*Term) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}
