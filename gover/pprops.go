package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// The properties decided over the parser's contracts.

var l1order = []string{"nextTokenWithParseComment", "nextToken", "peekToken", "prevToken", "mustNextToken", "consumeToken", "parseKeyword", "parseKeywords", "expectKeyword", "expectToken", "Debug"}

// costly functions first, so that the workers finish together
var jobCost = map[string]int{"parseCreate": 400, "parseQueryBody": 300, "parsePrefix": 100, "parseSubexpr": 90, "parseDefaultExpr": 90, "parseColumnDef": 80, "parseAlter": 70, "parseTableFactor": 70, "ParseDataType": 60, "parseTableConstraints": 60}

// parserJobs: the reader functions, the parse functions, and extra jobs.
func parserJobs(P *Program, prop string, drop []string, extra ...string) []Job {
	m := newParse(P, NewReport(prop))
	m.dropContracts(drop)
	m.makeContracts()
	var l2 []string
	for _, k := range m.contracts {
		l2 = append(l2, fname(k.fn))
	}
	sort.Slice(l2, func(i, j int) bool {
		a, b := jobCost[shortName(l2[i])], jobCost[shortName(l2[j])]
		return a > b || a == b && l2[i] < l2[j]
	})
	var jobs []Job
	for _, n := range extra {
		jobs = append(jobs, Job{Name: n, Drop: drop})
	}
	for _, n := range l2 {
		jobs = append(jobs, Job{Name: "L2/" + n, Drop: drop})
	}
	for _, n := range l1order {
		if f := P.funcs[pname(n)]; f != nil {
			if _, ok := m.isL1(f); ok {
				jobs = append(jobs, Job{Name: "L1/" + n, Drop: drop})
			}
		}
	}
	return jobs
}

func (m *parseModel) dropContracts(drop []string) {
	m.dropped = map[string]bool{}
	for _, d := range drop {
		m.dropped[d] = true
	}
}

func parseCheck(prop string, extra ...string) func(*Program, *Report) {
	return func(P *Program, rep *Report) {
		decideJobs(rep, func(drop []string) []Job { return parserJobs(P, prop, drop, extra...) }, func(job string) string {
			if !strings.HasPrefix(job, "L2/") {
				return ""
			}
			m := newParse(P, NewReport(prop))
			m.makeContracts()
			if k := m.contracts[job[3:]]; k != nil && k.opt {
				return k.name
			}
			return ""
		})
		if prop == "C04" || prop == "L2" {
			acyclic(rep)
		}
	}
}

// runParseJob runs one job of a parser property.
func runParseJob(P *Program, rep *Report, j Job) {
	m := newParse(P, rep)
	m.dropContracts(j.Drop)
	m.makeContracts()
	switch {
	case strings.HasPrefix(j.Name, "L1/"):
		n := j.Name[3:]
		m.checkL1(P.funcs[pname(n)], n)
	case strings.HasPrefix(j.Name, "L2/"):
		m.checkL2(m.contracts[j.Name[3:]])
	default:
		extraJobs[j.Name](m)
	}
}

var extraJobs = map[string]func(m *parseModel){}

// ---------- which obligations a property needs ----------

var panicKinds = map[string]bool{"nil-deref": true, "index": true, "type-assert": true, "slice-bounds": true, "nil-map": true, "div-zero": true, "unsigned-underflow": true, "panic-contract": true, "no-panic": true, "assert": true}

// kindsOf: obligations of the panic kinds belong to C03, termination to C04, and so on; the
// contracts themselves, on which all reasoning rests, belong to every property.
func kindsOf(prop string) func(string) bool {
	return func(kind string) bool {
		switch {
		case panicKinds[kind]:
			return prop == "C03" || prop == "L2"
		case kind == "termination":
			return prop == "C04" || prop == "L2"
		case kind == "dependence":
			return prop == "C07" || prop == "L2"
		case kind == "script":
			return prop == "C17" || prop == "C07" || prop == "C01" || prop == "L2"
		case kind == "derivation":
			return prop == "C01"
		case kind == "grouping":
			return prop == "C02"
		case kind == "position":
			return prop == "C15" || prop == "L2"
		case kind == "spelling":
			return prop == "C16" || prop == "L2"
		case kind == "locality":
			return prop == "C17"
		}
		return true
	}
}

// ---------- C07: what a parse function's behaviour depends on ----------

// dirty: the part of t that is not a function of the significant tokens, the position and the
// arguments ("" if there is none).
func (m *parseModel) dirty(t *Term) string {
	if v, ok := m.dirtyMemo[t]; ok {
		return v
	}
	r := m.dirty0(t)
	m.dirtyMemo[t] = r
	return r
}

func (m *parseModel) dirty0(t *Term) string {
	switch t.Op {
	case "sym":
		if t == m.p || t == m.c0 || t == m.M || t == m.eofErr || m.clean[t] {
			return ""
		}
		return t.S
	case "fld":
		if strings.HasPrefix(t.S, parserPkg+".Parser.") {
			return t.S
		}
		if isPosT(t.T) || strings.HasPrefix(t.S, "sqltoken.Pos.") {
			return "a position (" + t.S + ")"
		}
	case "gval":
		if !m.constGlobal(t.S) {
			return "variable " + t.S
		}
	case "uf":
		if t.S == "cnt" {
			if m.posOnly[t.A[0]] {
				return ""
			}
			return "the raw index"
		}
	case "deref", "elem":
		return t.String()
	}
	for _, a := range t.A {
		if t.Op == "struct" && isPosT(a.T) {
			continue
		}
		if w := m.dirty(a); w != "" {
			return w
		}
	}
	return ""
}

func isPosT(t types.Type) bool { return t != nil && tstr(t) == "sqltoken.Pos" }

// constGlobal: no function assigns the variable.
func (m *parseModel) constGlobal(name string) bool {
	m.P.globals()
	return !m.P.ginfo.mutable[name]
}

func (m *parseModel) dep(fr *Frame, what string, t *Term, st *State, pos token.Pos) {
	w := m.dirty(t)
	why := ""
	if w != "" {
		why = t.String() + " depends on " + w
	}
	m.x.Ob(fname(m.x.top), "dependence", what+" in "+fname(fr.fn)+" depends only on the significant tokens, the position among them and the arguments", w == "", why, pos)
}

func (m *parseModel) branch(x *Exec, fr *Frame, st *State, cond *Term, pos token.Pos) {
	m.spellBranch(fr, st, cond, pos)
	if x.mute > 0 || m.level != 2 || !x.wants("dependence") {
		return
	}
	e := st.eval(cond)
	if e == True || e == False || m.dirty(e) == "" {
		m.dep(fr, "a branch", True, st, pos)
		return
	}
	if m.freeBranch != nil && m.freeBranch(e) {
		return
	}
	if !x.feasible(st, e) || !x.feasible(st, Not(e)) {
		return
	}
	m.dep(fr, "a branch", e, st, pos)
}

func (x *Exec) wants(kind string) bool { return x.keep == nil || x.keep(kind) }

// storeDep: a value stored where it is no position.
func (m *parseModel) storeDep(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
	if x.mute > 0 || m.level != 2 || !x.wants("dependence") || addr == m.idxA {
		return
	}
	if addr.Op == "addr.f" && (strings.HasPrefix(addr.S, "sqltoken.Pos.") || addr.T != nil && isPosT(addr.T.Underlying().(*types.Pointer).Elem())) || addr.Op == "alloc" && isPosT(addr.T) {
		return
	}
	if addr.Op == "addr.f" && addr.S == parserPkg+".Parser.comments" || addr.Op == "addr.i" && addr.S == "map" {
		return
	}
	if m.isErrVal(val, addr) || localCell(addr) || m.isPanicVal(root(addr).T) {
		return
	}
	if m.unspec[val] && isFreshRoot(addr) {
		m.parked = true // the result of a failed call: must not be part of a result (cellDeps)
		return
	}
	m.dep(fr, "a stored value", val, st, pos)
}

// cellDeps: where results of failed calls were stored into new objects, no object holds one any more.
func (m *parseModel) cellDeps(fr *Frame, st *State, what string, pos token.Pos) {
	if !m.parked || m.x.mute > 0 || m.level != 2 || !m.x.wants("dependence") {
		return
	}
	for a, v := range st.mem {
		r := root(a)
		if r.Op != "alloc" || a == m.idxA || m.isErrVal(v, a) || localCell(a) || m.isPanicVal(r.T) || m.dirty(v) == "" {
			continue
		}
		if a.Op == "addr.f" && strings.HasPrefix(a.S, "sqltoken.Pos.") || isPosT(v.T) || a.Op == "addr.i" && a.S == "map" {
			continue
		}
		m.dep(fr, what, v, st, pos)
	}
}

// isPanicVal: T is a type of the values that the package panics with, or a pointer to one.
func (m *parseModel) isPanicVal(T types.Type) bool {
	for _, p := range m.panicT {
		if T != nil && tstr(T) == tstr(p) {
			return true
		}
	}
	return false
}

// localCell: a variable of the function itself. No node has a field of type pointer to interface,
// pointer or struct variable (checked by nodeCells), so such a cell is no part of a result; what is
// read from it is judged where it is used.
func localCell(addr *Term) bool {
	if addr.Op != "alloc" || addr.T == nil {
		return false
	}
	switch addr.T.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice:
		return true
	}
	return false
}

// isErrVal: error values carry texts with positions in them.
func (m *parseModel) isErrVal(val, addr *Term) bool {
	if addr.Op == "addr.f" && addr.A[0].Op == "alloc" && addr.A[0].T != nil && types.Implements(addr.A[0].T, errorIface) {
		return true // inside an error value
	}
	T := addr.T
	if T != nil {
		if p, ok := T.Underlying().(*types.Pointer); ok && addr.Op != "alloc" {
			T = p.Elem()
		}
	}
	if T != nil && isErrT(T) {
		return true
	}
	if val.T != nil && isErrT(val.T) {
		return true
	}
	// variadic arguments of Errorf and the like
	return T != nil && tstr(T) == "interface{}" || addr.Op == "addr.i"
}

// loopDeps decides which loop variables depend on the significant tokens only.
func (m *parseModel) loopDeps(x *Exec, fr *Frame, lc *LoopCtx, backs []Exit) {
	bad := map[*Term]bool{}
	var vs []*Term
	for _, s := range lc.vars {
		if s.Op == "sym" && s != lc.entry[s] {
			if a := lc.cellOf[s]; a == m.idxA {
				continue
			}
			vs = append(vs, s)
			m.setClean(s)
		}
	}
	if cphi := m.loopC(lc); cphi != nil {
		for s, a := range lc.cellOf {
			if a == m.idxA {
				m.posOnly[s] = true // clean through its position only
				m.dirtyMemo = map[*Term]string{}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, s := range vs {
			if bad[s] {
				continue
			}
			d := m.dirty(lc.entry[s]) != ""
			for _, e := range backs {
				v := s
				if a, ok := lc.cellOf[s]; ok {
					if u := e.st.mem[a]; u != nil {
						v = u
					}
				} else {
					v = x.backVal(fr, e, lc.phiOf[s], lc.lp)
				}
				if isPosT(s.T) {
					d = true
				}
				if m.dirty(v) != "" {
					d = true
				}
			}
			if d {
				bad[s] = true
				delete(m.clean, s)
				m.dirtyMemo = map[*Term]string{}
				ch = true
			}
		}
	}
}

func (m *parseModel) setClean(s *Term) {
	m.clean[s] = true
	m.dirtyMemo = map[*Term]string{}
}

func (m *parseModel) loopC(lc *LoopCtx) *Term {
	for s, a := range lc.cellOf {
		if a == m.idxA {
			return UF("cnt", SInt, s)
		}
	}
	return nil
}

// ---------- loops ----------

func (m *parseModel) loopChecks(x *Exec, fr *Frame, lc *LoopCtx, head *State, backs []Exit) {
	m.loopDeps(x, fr, lc, backs)
	if x.mute == 0 && m.level == 2 && (x.wants("position") || x.wants("spelling") || x.wants("grouping")) {
		m.spellLoop(x, fr, lc, backs)
		m.leafLoop(x, fr, lc, backs)
	}
	if x.mute == 0 && x.wants("termination") {
		m.measure(x, fr, lc, head, backs)
	}
}

// measure: every iteration moves the reader towards the end of the text, or counts towards a
// bound.
func (m *parseModel) measure(x *Exec, fr *Frame, lc *LoopCtx, head *State, backs []Exit) {
	type cand struct {
		cur  *Term
		next func(e Exit) *Term
	}
	var cs []cand
	for _, s := range lc.vars {
		s := s
		if s.Op != "sym" || s == lc.entry[s] || s.Sort != SInt {
			continue
		}
		if a, ok := lc.cellOf[s]; ok {
			val := func(e Exit) *Term {
				if v := e.st.mem[a]; v != nil {
					return v
				}
				return s
			}
			if a == m.idxA {
				cs = append(cs, cand{m.C(s), func(e Exit) *Term { return m.C(val(e)) }})
			}
			if m.level == 1 || a != m.idxA {
				cs = append(cs, cand{s, val})
			}
		} else {
			cs = append(cs, cand{s, func(e Exit) *Term { return x.backVal(fr, e, lc.phiOf[s], lc.lp) }})
		}
	}
	ok := len(backs) == 0
	why := "no counter moves towards a bound on every path"
	for _, c := range cs {
		up, down := true, true
		for _, e := range backs {
			v := c.next(e)
			up = up && x.Prove(e.st, Lt(c.cur, v)) && (x.Prove(e.st, Le(v, m.M)) || x.Prove(e.st, Le(v, Len(m.toks))))
			down = down && x.Prove(e.st, And(Lt(v, c.cur), Le(Zero, c.cur)))
		}
		if up || down {
			ok = true
		}
	}
	if !ok {
		ok = true
		for _, e := range backs {
			if !countsUp(x, lc, e, lc.lp, fr) {
				ok = false
				why += pathStr(e.st)
				break
			}
		}
	}
	if ok {
		why = ""
	}
	x.Ob(fname(x.top), "termination", fmt.Sprintf("loop %d of %s ends", lc.lp.ord, fname(fr.fn)), ok, why, lc.lp.header.Instrs[0].Pos())
}

// called: recursion without having read a token must not come back to the same function.
func (m *parseModel) called(st *State, k *pContract, c *Term) {
	if m.x.mute > 0 || m.self == nil {
		return
	}
	if m.x.Prove(st, Lt(m.c0, c)) {
		return
	}
	m.rep.stats["zero:"+fname(m.self)+">"+fname(k.fn)]++
}

// acyclic: no chain of calls that read no token returns to its start.
func acyclic(rep *Report) {
	next := map[string][]string{}
	for k := range rep.stats {
		if strings.HasPrefix(k, "zero:") {
			p := strings.SplitN(k[5:], ">", 2)
			next[p[0]] = append(next[p[0]], p[1])
		}
	}
	state := map[string]int{}
	var bad []string
	var path []string
	var rec func(n string)
	rec = func(n string) {
		if state[n] == 1 {
			bad = append(bad, strings.Join(append(append([]string{}, path...), n), " -> "))
			return
		}
		if state[n] == 2 {
			return
		}
		state[n] = 1
		path = append(path, n)
		sort.Strings(next[n])
		for _, k := range next[n] {
			rec(k)
		}
		path = path[:len(path)-1]
		state[n] = 2
	}
	var ns []string
	for n := range next {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		rec(n)
	}
	o := &Obligation{Prop: rep.prop, Fn: "parser", Kind: "termination", Detail: "no recursion returns to a function before a token has been read", OK: len(bad) == 0}
	if len(bad) > 0 {
		o.Why = strings.Join(bad, "\n")
	}
	rep.obs = append(rep.obs, o)
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
