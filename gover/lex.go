package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the tokenizer (C05, C06 and its part of C03 and C04).
//
// Ghost input: ch(k) is the k-th character of the text, -1 from N on. Each scanner has a ghost
// read index q (assumed contract of text/scanner: Peek returns ch(q), Next returns ch(q) and
// advances q unless at the end). advL(k), advC(k) are line and column after the first k
// characters, defined by recursion on k.
//
//   next:     ensures, with q0/q1 the read index before/after: either EOF and q0 == N; or an
//             error, and the text at q0 is unterminated or illegal; or [q0,q1) is a token of
//             the kind and value returned by the longest-match rules below, q0 < q1 <= N
//             and Line, Col == advL(q1), advC(q1).
//   Scan:     the token's Kind, Value are next's, From == adv(q0), To == adv(q1).
//   Tokenize: the returned list is exactly the tokens of the whole text in order.

func chAt(k *Term) *Term          { return UF("ch", SInt, k) }
func advL(k *Term) *Term          { return UF("advL", SInt, k) }
func advC(k *Term) *Term          { return UF("advC", SInt, k) }
func isRunes(s, a, b *Term) *Term { return UF("isrunes", SBool, s, a, b) }
func rstr(a, b *Term) *Term       { return UF("rstr", SStr, a, b) }
func undq(a, b *Term) *Term       { return UF("undq", SStr, a, b) }

// range predicates: hold of every character (or pair of characters) in [a,b)
func rng(name string, a, b *Term) *Term { return UF("rng."+name, SBool, a, b) }

var inputN = Sym("N", SInt, nil)

func qCell(sc *Term) *Term { return UF("ghost.q", SRef, sc) }

type lexModel struct {
	P      *Program
	t      *Term // the tokenizer
	q0     *Term
	anchor []*Term
	iters  int
	eofErr *Term
	onCall func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool)
}

func (m *lexModel) q(st *State, sc *Term) *Term {
	if v, ok := st.mem[qCell(sc)]; ok {
		return v
	}
	return m.q0
}

// chFacts: what is known of the character at k.
func (m *lexModel) chFacts(x *Exec, st *State, k *Term) {
	c := chAt(k)
	st.assume(Le(Int(-1), c))
	st.assume(Eq(Eq(c, Int(-1)), Le(inputN, k)))
	st.assume(Le(k, inputN))
	if k.Op == "sym" && k != m.q0 && x.Prove(st, Le(One, k)) {
		advFacts(st, Sub(k, One)) // inside a loop: the character read before
	}
}

func nlAt(k *Term) *Term {
	c := chAt(k)
	return Or(Eq(c, Int('\n')), And(Eq(c, Int('\r')), Not(Eq(chAt(Add(k, One)), Int('\n')))))
}

// advFacts: definition of advL, advC at k+1.
func advFacts(st *State, k *Term) {
	k1 := Add(k, One)
	c := chAt(k)
	st.assume(Eq(advL(k1), Ite(nlAt(k), Add(advL(k), One), advL(k))))
	st.assume(Eq(advC(k1), Ite(nlAt(k), One, Ite(Eq(c, Int('\r')), advC(k), Ite(Eq(c, Int('\t')), Add(advC(k), Int(4)), Add(advC(k), One))))))
}

func (m *lexModel) model(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
	ret := func(vs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, vals: vs}}, true }
	if m.onCall != nil {
		if o, ok := m.onCall(x, fr, st, ci); ok {
			return o, true
		}
	}
	full := ""
	if ci.fn != nil {
		full = ci.fn.String()
	}
	switch full {
	case "(*text/scanner.Scanner).Init":
		st.mem[qCell(ci.args[0])] = Zero
		return ret(ci.args[0])
	case "(*text/scanner.Scanner).Peek":
		q := m.q(st, ci.args[0])
		m.chFacts(x, st, q)
		return ret(chAt(q))
	case "(*text/scanner.Scanner).Next":
		q := m.q(st, ci.args[0])
		m.chFacts(x, st, q)
		c := chAt(q)
		atEnd := Eq(c, Int(-1))
		var outs []Outcome
		fin := x.feasible(st, atEnd)
		more := x.feasible(st, Not(atEnd))
		if fin && more {
			s2 := st.clone()
			s2.assume(atEnd)
			outs = append(outs, Outcome{st: s2, vals: []*Term{c}})
		} else if fin {
			st.assume(atEnd)
			return ret(c)
		}
		if more {
			st.assume(Not(atEnd))
			advFacts(st, q)
			st.mem[qCell(ci.args[0])] = Add(q, One)
			outs = append(outs, Outcome{st: st, vals: []*Term{c}})
		}
		return outs, true
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		m.put(st, ci.args[0], UF("runestr", SStr, ci.args[1]))
		return ret(Fresh("n", SInt, nil), Nil)
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		m.put(st, ci.args[0], UF("runestr", SStr, ci.args[1]))
		return ret(Nil)
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		m.put(st, ci.args[0], ci.args[1])
		return ret(Len(ci.args[1]), Nil)
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ret()
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return ret(m.content(st, ci.args[0]))
	case "(*strings.Builder).Len":
		return ret(Len(m.content(st, ci.args[0])))
	case "unicode/utf8.RuneCountInString":
		// number of characters of a string known to be a stretch of the input
		if a, b := m.asRstr(x, st, ci.args[0]); a != nil {
			return ret(Sub(b, a))
		}
		return ret(UF("runecount", SInt, ci.args[0]))
	case "unicode/utf8.RuneLen":
		return ret(UF("runelen", SInt, ci.args[0]))
	}
	switch ci.method {
	case "IsIdentifierStart", "IsIdentifierPart", "IsDelimitedIdentifierStart":
		r := ci.args[0]
		p := UF(ci.method, SBool, r)
		st.assume(dialectContract(ci.method, r))
		return ret(p)
	}
	if full == fullName("sqltoken.MakeKeyword") && fname(x.top) != "sqltoken.MakeKeyword" {
		w := UF("word", SRef, ci.args[0], ci.args[1])
		T := ci.fn.Signature.Results().At(0).Type()
		w = retype(w, T)
		st.assume(Not(Eq(w, Nil)))
		for n, v := range map[string]*Term{"Value": ci.args[0], "QuoteStyle": ci.args[1], "Keyword": UF("strings.ToUpper", SStr, ci.args[0])} {
			ad, ft := fieldOf(w, T.Underlying().(*types.Pointer).Elem(), n)
			st.assume(Eq(x.load(st, ad, ft), v))
		}
		return ret(w)
	}
	return nil, false
}

func retype(t *Term, T types.Type) *Term { return mk(t.Op, t.Sort, t.S, t.I, T, t.A...) }

func fullName(n string) string {
	i := strings.Index(n, ".")
	return modPath + "/" + n[:i] + n[i:]
}

func (m *lexModel) put(st *State, b, s *Term) {
	st.mem[bufCell(b)] = SCat(m.content(st, b), s)
}

func bufCell(b *Term) *Term { return UF("ghost.buf", SRef, b) }

func (m *lexModel) content(st *State, b *Term) *Term {
	if v, ok := st.mem[bufCell(b)]; ok {
		return v
	}
	return Str("")
}

// dialectContract: the contract of the Dialect interface, proved for every dialect of the
// repository by checkDialects.
func dialectContract(method string, r *Term) *Term {
	p := UF(method, SBool, r)
	is := func(c rune) *Term { return Eq(r, Int(int64(c))) }
	digit := And(Le(Int('0'), r), Le(r, Int('9')))
	switch method {
	case "IsIdentifierStart":
		cs := []*Term{Eq(r, Int(-1)), digit}
		for _, c := range " \t\n\r'\"`(),-/+*%=.!<>:;\\[]&{}" {
			cs = append(cs, is(c))
		}
		return Implies(p, Not(Or(cs...)))
	case "IsIdentifierPart":
		cs := []*Term{Eq(r, Int(-1))}
		for _, c := range " \t\n\r" {
			cs = append(cs, is(c))
		}
		return Implies(p, Not(Or(cs...)))
	}
	return Implies(p, Or(is('"'), is('`'), is('[')))
}

// asRstr: bounds a, b with s == rstr(a,b), if known.
func (m *lexModel) asRstr(x *Exec, st *State, s *Term) (a, b *Term) {
	for _, c := range facts(x, st) {
		if c.Op == "eq" && c.A[0].Sort == SStr {
			for k := 0; k < 2; k++ {
				if c.A[1-k] == s && c.A[k].Op == "uf" && c.A[k].S == "rstr" {
					return c.A[k].A[0], c.A[k].A[1]
				}
			}
		}
	}
	// a single character followed or not by a known stretch
	q := m.curQ(st)
	for _, base := range m.anchor {
		for k := int64(-3); k <= 3; k++ {
			lo := Add(base, Int(k))
			if x.Prove(st, Eq(s, rstr(lo, q))) {
				return lo, q
			}
		}
	}
	return nil, nil
}

func (m *lexModel) curQ(st *State) *Term {
	for a, v := range st.mem {
		if a.Op == "uf" && a.S == "ghost.q" {
			return v
		}
	}
	return m.q0
}

// ---------- prover ----------

func isGhostPred(t *Term) bool {
	if t.Op == "uf" {
		return strings.HasPrefix(t.S, "rng.") || t.S == "isrunes" || t.S == "toksOK"
	}
	return t.Op == "eq" && t.A[0].Sort == SStr
}

func (m *lexModel) prover(x *Exec, st *State, goal *Term) (bool, bool) {
	if goal.Op == "uf" && strings.HasPrefix(goal.S, "rng.") {
		return true, m.proveRng(x, st, goal, 0)
	}
	if goal.Op == "not" && goal.A[0].Op == "and" {
		for i, k := range goal.A[0].A {
			if k.Op != "not" || !isGhostPred(k.A[0]) {
				continue
			}
			s2 := st.clone()
			for j, h := range goal.A[0].A {
				if j != i {
					s2.assume(h)
				}
			}
			if !x.feasible(s2, True) || x.Prove(s2, False) || x.Prove(s2, k.A[0]) {
				return true, true
			}
		}
		return false, false
	}
	if goal.Op == "uf" && goal.S == "toksWf" {
		return true, m.proveWf(x, st, goal.A[0])
	}
	if goal.Op == "uf" && goal.S == "isrunes" {
		return true, m.seqIs(x, st, goal.A[0], goal.A[1], goal.A[2], 0)
	}
	if goal.Op == "uf" && goal.S == "toksOK" {
		return true, m.proveToks(x, st, goal)
	}
	if goal.Op == "eq" {
		for k := 0; k < 2; k++ {
			s, o := goal.A[k], goal.A[1-k]
			if s.Op != "uf" {
				continue
			}
			switch s.S {
			case "rstr":
				return true, m.strIs(x, st, o, s.A[0], s.A[1], 0)
			case "undq":
				return true, m.undqIs(x, st, o, s.A[0], s.A[1], 0)
			}
		}
	}
	return false, false
}

// facts: the path condition, with implications whose premises hold resolved.
func facts(x *Exec, st *State) []*Term {
	out := st.pc
	n := len(out)
	for _, c := range st.pc {
		if c.Op != "not" || c.A[0].Op != "and" {
			continue
		}
		var rest *Term
		for _, k := range c.A[0].A {
			if k.Op == "not" && isGhostPred(k.A[0]) {
				rest = k.A[0]
			}
		}
		if rest == nil {
			continue
		}
		ok := true
		for _, k := range c.A[0].A {
			if k.Op == "not" && k.A[0] == rest || st.pcs[k] {
				continue
			}
			if st.pcs[Not(k)] || !x.sol.Valid(st.pc, k) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out[:n:n], rest)
			n++
		}
	}
	return out
}

// facts Eq(t, name(a,b)) in the path condition
func factsOf(x *Exec, st *State, t *Term, name string) [][2]*Term {
	var out [][2]*Term
	for _, c := range facts(x, st) {
		if name == "runes" && c.Op == "uf" && c.S == "isrunes" && c.A[0] == t {
			out = append(out, [2]*Term{c.A[1], c.A[2]})
		}
		if c.Op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			if c.A[k] == t && c.A[1-k].Op == "uf" && c.A[1-k].S == name {
				out = append(out, [2]*Term{c.A[1-k].A[0], c.A[1-k].A[1]})
			}
		}
	}
	return out
}

func (m *lexModel) eq(x *Exec, st *State, a, b *Term) bool { return a == b || x.Prove(st, Eq(a, b)) }

// seqIs: is t the list of characters [a,b)?
func (m *lexModel) seqIs(x *Exec, st *State, t, a, b *Term, d int) bool {
	if d > 12 {
		return false
	}
	switch t.Op {
	case "nilseq":
		return m.eq(x, st, a, b)
	case "seq":
		n := int64(len(t.A))
		if !m.eq(x, st, Add(a, Int(n)), b) {
			return false
		}
		for i, e := range t.A {
			if !m.eq(x, st, e, chAt(Add(a, Int(int64(i))))) {
				return false
			}
		}
		return true
	case "snoc":
		b1 := Sub(b, One)
		return x.Prove(st, Le(a, b1)) && m.eq(x, st, t.A[1], chAt(b1)) && m.seqIs(x, st, t.A[0], a, b1, d+1)
	case "cat":
		if t.A[1].Op == "seq" {
			n := Int(int64(len(t.A[1].A)))
			return x.Prove(st, Le(a, Sub(b, n))) && m.seqIs(x, st, t.A[1], Sub(b, n), b, d+1) && m.seqIs(x, st, t.A[0], a, Sub(b, n), d+1)
		}
	}
	for _, f := range factsOf(x, st, t, "runes") {
		if m.eq(x, st, f[0], a) && m.eq(x, st, f[1], b) {
			return true
		}
	}
	return false
}

func strPieces(t *Term) []*Term {
	if t.Op == "scat" {
		var out []*Term
		for _, p := range t.A {
			out = append(out, strPieces(p)...)
		}
		return out
	}
	if t.Op == "str" {
		var out []*Term
		for _, r := range t.S {
			out = append(out, UF("runestr", SStr, Int(int64(r))))
		}
		return out
	}
	return []*Term{t}
}

func isConv(t *Term) bool {
	return t.Op == "uf" && t.S == "conv:[]rune:string"
}

// strIs: is t the string of the characters [a,b)?
func (m *lexModel) strIs(x *Exec, st *State, t, a, b *Term, d int) bool {
	if d > 12 {
		return false
	}
	ps := strPieces(t)
	for len(ps) > 0 {
		p := ps[len(ps)-1]
		if p.Op == "uf" && p.S == "runestr" {
			b = Sub(b, One)
			if !x.Prove(st, Le(a, b)) || !m.eq(x, st, p.A[0], chAt(b)) {
				return false
			}
			ps = ps[:len(ps)-1]
			continue
		}
		break
	}
	if len(ps) == 0 {
		return m.eq(x, st, a, b)
	}
	p := ps[len(ps)-1]
	rest := ps[:len(ps)-1]
	try := func(lo, hi *Term) bool {
		return m.eq(x, st, hi, b) && x.Prove(st, Le(lo, hi)) && m.strIs(x, st, SCat(rest...), a, lo, d+1)
	}
	if p.Op == "uf" && p.S == "rstr" && try(p.A[0], p.A[1]) {
		return true
	}
	for _, f := range factsOf(x, st, p, "rstr") {
		if try(f[0], f[1]) {
			return true
		}
	}
	if isConv(p) {
		if len(rest) == 0 {
			return m.seqIs(x, st, p.A[0], a, b, d+1)
		}
		for _, f := range factsOf(x, st, p.A[0], "runes") {
			if try(f[0], f[1]) {
				return true
			}
		}
	}
	return false
}

// undqIs: is t the string of [a,b) with doubled quotes undone? (well-paired body)
func (m *lexModel) undqIs(x *Exec, st *State, t, a, b *Term, d int) bool {
	if d > 12 {
		return false
	}
	if t.Op == "uf" && t.S == "undq" {
		return m.eq(x, st, t.A[0], a) && m.eq(x, st, t.A[1], b)
	}
	for _, f := range factsOf(x, st, t, "undq") {
		if m.eq(x, st, f[0], a) && m.eq(x, st, f[1], b) {
			return true
		}
	}
	if isConv(t) {
		// a list of characters undone: []rune built with doubled quotes undone
		for _, f := range factsOf(x, st, t.A[0], "undqs") {
			if m.eq(x, st, f[0], a) && m.eq(x, st, f[1], b) {
				return true
			}
		}
	}
	ps := strPieces(t)
	if len(ps) == 0 {
		return m.eq(x, st, a, b)
	}
	p := ps[len(ps)-1]
	if p.Op != "uf" || p.S != "runestr" {
		return false
	}
	rest := SCat(ps[:len(ps)-1]...)
	b1 := Sub(b, One)
	if !x.Prove(st, Le(a, b1)) || !m.eq(x, st, p.A[0], chAt(b1)) {
		return false
	}
	if x.Prove(st, Not(Eq(chAt(b1), Int('\'')))) {
		return m.undqIs(x, st, rest, a, b1, d+1)
	}
	b2 := Sub(b, Int(2))
	return x.Prove(st, And(Le(a, b2), Eq(chAt(b1), Int('\'')), Eq(chAt(b2), Int('\'')))) && m.undqIs(x, st, rest, a, b2, d+1)
}

// charPred: what rng.<name>(a,b) says of the character at k.
func charPred(name string, k *Term) *Term {
	c := chAt(k)
	switch {
	case name == "part":
		return UF("IsIdentifierPart", SBool, c)
	case name == "num":
		return Or(And(Le(Int('0'), c), Le(c, Int('9'))), Eq(c, Int('.')))
	case name == "nonl":
		return Not(Eq(c, Int('\n')))
	case strings.HasPrefix(name, "not"):
		r, _ := utf8.DecodeRuneInString(name[3:])
		return Not(Eq(c, Int(int64(r))))
	}
	return False
}

func (m *lexModel) proveRng(x *Exec, st *State, goal *Term, d int) bool {
	if st.pcs[goal] {
		return true
	}
	if d > 6 {
		return false
	}
	name := goal.S[4:]
	a, b := goal.A[0], goal.A[1]
	if name == "noclose" {
		if x.Prove(st, Le(b, Add(a, One))) {
			return true
		}
	} else if m.eq(x, st, a, b) {
		return true
	}
	for _, c := range facts(x, st) {
		if c.Op == "uf" && c.S == goal.S && m.eq(x, st, c.A[0], a) && m.eq(x, st, c.A[1], b) {
			return true
		}
		if c.Op == "uf" && c.S == goal.S && name != "qok" && m.eq(x, st, c.A[0], a) && x.Prove(st, Le(b, c.A[1])) {
			return true // part of a longer range
		}
	}
	b1 := Sub(b, One)
	if !x.Prove(st, Le(a, b1)) {
		return false
	}
	switch name {
	case "noclose": // no "*/" inside [a,b)
		k := Sub(b, Int(2))
		return m.proveRng(x, st, rng(name, a, b1), d+1) && x.Prove(st, Or(Lt(k, a), Not(Eq(chAt(k), Int('*'))), Not(Eq(chAt(b1), Int('/')))))
	case "qok": // non-quote characters and doubled quotes
		if x.Prove(st, Not(Eq(chAt(b1), Int('\'')))) {
			return m.proveRng(x, st, rng(name, a, b1), d+1)
		}
		b2 := Sub(b, Int(2))
		return x.Prove(st, And(Le(a, b2), Eq(chAt(b1), Int('\'')), Eq(chAt(b2), Int('\'')))) && m.proveRng(x, st, rng(name, a, b2), d+1)
	}
	return x.Prove(st, charPred(name, b1)) && m.proveRng(x, st, rng(name, a, b1), d+1)
}

// ---------- loop candidates ----------

func (m *lexModel) cands(x *Exec, lc *LoopCtx) []*Term {
	var q *Term
	for s, c := range lc.cellOf {
		if c.Op == "uf" && c.S == "ghost.q" {
			q = s
		}
	}
	if q == nil {
		return nil
	}
	qe := lc.entry[q]
	var out []*Term
	add := func(t *Term) { out = append(out, t) }
	add(Le(q, inputN))
	add(Le(Zero, q))
	add(Eq(advL(q), advL(qe)))
	var as []*Term
	for k := int64(-2); k <= 2; k++ {
		as = append(as, Add(qe, Int(k)))
	}
	var ints, bools, seqs, strs, chars []*Term
	for _, s := range lc.vars {
		if s.Op != "sym" || s == lc.entry[s] || s == q {
			continue
		}
		switch s.Sort {
		case SInt:
			ints = append(ints, s)
			if p := lc.phiOf[s]; p != nil && isRune(p.Type()) {
				chars = append(chars, s)
				add(Le(Int(-1), s))
				add(Implies(Not(Eq(s, Int(-1))), Eq(s, chAt(Sub(q, One)))))
				add(Implies(Eq(s, Int(-1)), Eq(q, inputN)))
				add(Implies(Not(Eq(s, Int(-1))), Lt(qe, q)))
			}
		case SBool:
			bools = append(bools, s)
		case SSeq:
			seqs = append(seqs, s)
		case SStr:
			strs = append(strs, s)
		}
	}
	guarded := func(t *Term) {
		add(t)
		for _, i := range chars {
			add(Implies(Eq(i, Int(-1)), t))
			add(Implies(Not(Eq(i, Int(-1))), t))
			add(Implies(Not(Eq(i, Int(-1))), Subst(t, map[*Term]*Term{q: Sub(q, One)})))
		}
		for _, b := range bools {
			add(Implies(b, t))
			add(Implies(Not(b), t))
		}
	}
	for _, a := range as {
		guarded(Eq(Sub(advC(q), q), Sub(advC(a), a)))
		for _, n := range []string{"part", "num", "nonl", "not'", "not\"", "not`", "not]", "noclose", "qok"} {
			guarded(rng(n, a, q))
			if n == "noclose" {
				guarded(rng(n, a, Add(q, One)))
				guarded(Or(Le(q, a), Not(Eq(chAt(Sub(q, One)), Int('*')))))
				guarded(Lt(a, q))
				guarded(And(Lt(a, q), Eq(chAt(Sub(q, One)), Int('*'))))
			}
		}
		for _, k := range []int64{0, -1, 1} {
			e := Add(q, Int(k))
			for _, s := range seqs {
				guarded(isRunes(s, a, e))
				guarded(Eq(Len(s), Sub(e, a)))
			}
			for _, s := range strs {
				guarded(Eq(s, rstr(a, e)))
				guarded(Eq(s, undq(a, e)))
			}
		}
	}
	for _, i := range ints {
		guarded(Eq(i, advL(q)))
		guarded(Eq(i, advC(q)))
		add(Eq(i, chAt(q)))
		add(Eq(i, chAt(Sub(q, One))))
		for _, a := range as {
			add(Eq(i, Sub(q, a)))
			add(Eq(Sub(i, lc.entry[i]), Sub(advC(q), advC(a))))
			add(Eq(Sub(i, lc.entry[i]), Sub(q, a)))
		}
	}
	return out
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// every path through the body of a loop must read at least one character
func (m *lexModel) onLoop(x *Exec, fr *Frame, lc *LoopCtx, head *State, backs []Exit) {
	q0 := (*Term)(nil)
	var cell *Term
	for s, c := range lc.cellOf {
		if c.Op == "uf" && c.S == "ghost.q" {
			q0, cell = s, c
		}
	}
	ok := true
	why := ""
	for _, e := range backs {
		if q0 != nil && x.Prove(e.st, And(Lt(q0, e.st.mem[cell]), Le(e.st.mem[cell], inputN))) {
			continue
		}
		dec := false
		for s, p := range lc.phiOf {
			// a character read ahead: two per character still to be read, one for itself
			if q0 != nil && s.Op == "sym" && s != lc.entry[s] && isRune(p.Type()) {
				v := x.backVal(fr, e, p, lc.lp)
				ahead := func(t *Term) *Term { return Ite(Eq(t, Int(-1)), Zero, One) }
				q1 := e.st.mem[cell]
				if q1 != nil && x.Prove(e.st, And(Le(q1, inputN), Lt(Add(Mul(Int(-2), q1), ahead(v)), Add(Mul(Int(-2), q0), ahead(s))))) {
					dec = true
				}
			}
		}
		if dec {
			continue
		}
		if countsUp(x, lc, e, lc.lp, fr) {
			continue
		}
		ok = false
		why = "a path through the loop reads no character" + pathStr(e.st)
	}
	x.Ob(fname(x.top), "termination", fmt.Sprintf("loop %d of %s: every iteration reads a character or counts towards a bound", lc.lp.ord, fname(fr.fn)), ok, why, lc.lp.header.Instrs[0].Pos())
}

// countsUp: the loop is a range over a list (or an integer counted up by one to a bound that
// the header tests).
func countsUp(x *Exec, lc *LoopCtx, e Exit, lp *Loop, fr *Frame) bool {
	for _, in := range lp.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true // range over a map or string
		}
	}
	for s, p := range lc.phiOf {
		if s.Sort != SInt || s.Op != "sym" {
			continue
		}
		v := x.backVal(fr, e, p, lp)
		if v == nil || v != Add(s, One) {
			continue
		}
		// header: i+1 < len (range) or i < bound with loop-invariant bound
		for _, in := range lp.header.Instrs {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.LSS {
				if _, isPhi := b.X.(*ssa.Phi); isPhi && b.X == ssa.Value(p) {
					return invariantIn(lp, b.Y)
				}
				if ad, ok := b.X.(*ssa.BinOp); ok && ad.Op == token.ADD && ad.X == ssa.Value(p) {
					return invariantIn(lp, b.Y)
				}
			}
		}
	}
	return false
}

func invariantIn(lp *Loop, v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		return !lp.blocks[u.Block()]
	}
	return false
}

// ---------- next ----------

type lexSetup struct {
	f            *ssa.Function
	x            *Exec
	m            *lexModel
	st           *State
	t, sc        *Term
	lineA, colA  *Term
	tT           types.Type
	intT         types.Type
	parseComment *Term
}

func newLex(P *Program, rep *Report, f *ssa.Function) *lexSetup {
	l := &lexSetup{f: f}
	l.x = rep.exec(P, rep.prop)
	l.m = &lexModel{P: P, q0: Sym("q0", SInt, nil)}
	l.m.anchor = []*Term{l.m.q0}
	l.x.model = l.m.model
	l.x.prover = l.m.prover
	l.x.loopCands = l.m.cands
	l.x.onLoop = l.m.onLoop
	l.x.checkPanics = true
	l.x.top = f
	l.st = newState()
	pk := P.pkgs["sqltoken"]
	l.tT = pk.Type("Tokenizer").Type()
	l.t = Sym("t", SRef, types.NewPointer(l.tT))
	l.m.t = l.t
	st := l.st
	st.assume(Not(Eq(l.t, Nil)))
	scA, scT := fieldOf(l.t, l.tT, "Scanner")
	l.sc = l.x.load(st, scA, scT)
	dA, dT := fieldOf(l.t, l.tT, "Dialect")
	st.assume(Not(Eq(l.sc, Nil)))
	st.assume(Not(Eq(l.x.load(st, dA, dT), Nil)))
	l.lineA, l.intT = fieldOf(l.t, l.tT, "Line")
	l.colA, _ = fieldOf(l.t, l.tT, "Col")
	pcA, pcT := fieldOf(l.t, l.tT, "parseComment")
	l.parseComment = l.x.load(st, pcA, pcT)
	st.mem[qCell(l.sc)] = l.m.q0
	st.assume(Le(Zero, l.m.q0))
	st.assume(Le(l.m.q0, inputN))
	st.assume(Eq(l.x.load(st, l.lineA, l.intT), advL(l.m.q0)))
	st.assume(Eq(l.x.load(st, l.colA, l.intT), advC(l.m.q0)))
	l.m.eofErr = eofTerm(P, l.x, st)
	l.x.eofErr = l.m.eofErr
	st.assume(Not(Eq(l.m.eofErr, Nil)))
	l.x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
		ok := isFreshRoot(addr) || addr == l.lineA || addr == l.colA
		x.Ob(fname(f), "frame", "store in "+fname(fr.fn)+" goes to the tokenizer's position or to new memory", ok, addr.String(), pos)
	}
	return l
}

func eofTerm(P *Program, x *Exec, st *State) *Term {
	for _, pk := range P.prog.AllPackages() {
		if pk.Pkg.Path() == "io" {
			g := pk.Var("EOF")
			a := mk("global", SRef, g.RelString(nil), 0, g.Type())
			return x.load(st, a, g.Type().(*types.Pointer).Elem())
		}
	}
	fatalf("io.EOF not found")
	return nil
}

func kindName(P *Program, k *Term) string {
	if k.Op != "int" {
		return ""
	}
	for n, mb := range P.pkgs["sqltoken"].Members {
		if c, ok := mb.(*ssa.NamedConst); ok && strings.HasSuffix(c.Type().String(), "sqltoken.Kind") {
			if constTerm(c.Value) == k {
				return n
			}
		}
	}
	return ""
}

var lexOps = map[string][]string{
	"Comma": {","}, "Eq": {"="}, "Neq": {"!=", "<>"}, "Lt": {"<"}, "Gt": {">"}, "LtEq": {"<="}, "GtEq": {">="},
	"Plus": {"+"}, "Minus": {"-"}, "Mult": {"*"}, "Div": {"/"}, "Mod": {"%"}, "LParen": {"("}, "RParen": {")"},
	"Period": {"."}, "Colon": {":"}, "DoubleColon": {"::"}, "Semicolon": {";"}, "Backslash": {"\\"}, "LBracket": {"["},
	"RBracket": {"]"}, "Ampersand": {"&"}, "LBrace": {"{"}, "RBrace": {"}"},
}

// a longer token that starts like the given operator
var lexLonger = map[string][]rune{"<": {'=', '>'}, ">": {'='}, ":": {':'}, "-": {'-'}, "/": {'*'}}

// tokenOf checks that [q0,q1) is a token of the given kind and value; "" if proved.
func (l *lexSetup) tokenOf(P *Program, st *State, kind, val, q1 *Term) string {
	x, q0 := l.x, l.m.q0
	pr := func(g *Term) bool { return x.Prove(st, g) }
	c := func(k int64) *Term { return chAt(Add(q0, Int(k))) }
	is := func(k int64, r rune) *Term { return Eq(c(k), Int(int64(r))) }
	n := func(k int64) bool { return pr(Eq(q1, Add(q0, Int(k)))) }
	strVal := func(goal func(s *Term) *Term) bool {
		if val.Op != "box" || val.A[0].Sort != SStr {
			return false
		}
		return pr(goal(val.A[0]))
	}
	constVal := func(s string) bool {
		if strVal(func(v *Term) *Term { return Eq(v, Str(s)) }) {
			return true
		}
		if strVal(func(v *Term) *Term { return Eq(v, rstr(q0, q1)) }) {
			// the token's own characters: are they s?
			i := int64(0)
			for _, r := range s {
				if !pr(is(i, r)) {
					return false
				}
				i++
			}
			return n(i)
		}
		return false
	}
	word := func(text func(s *Term) bool, quote *Term) bool {
		if val.Op != "box" || val.T == nil || !strings.HasSuffix(tstr(val.T), "sqltoken.SQLWord") {
			return false
		}
		p := val.A[0]
		T := val.T.Underlying().(*types.Pointer).Elem()
		get := func(n string) *Term { a, t := fieldOf(p, T, n); return x.load(st, a, t) }
		v := get("Value")
		// the Value's text: follow a known equation of the field
		vs := []*Term{v}
		for _, f := range facts(x, st) {
			if f.Op == "eq" && f.A[0] == v {
				vs = append(vs, f.A[1])
			} else if f.Op == "eq" && f.A[1] == v {
				vs = append(vs, f.A[0])
			}
		}
		okT := false
		var txt *Term
		for _, s := range vs {
			if text(s) {
				okT, txt = true, s
				break
			}
		}
		return okT && pr(Eq(get("QuoteStyle"), quote)) && pr(Eq(get("Keyword"), UF("strings.ToUpper", SStr, txt)))
	}
	for _, k := range []int64{0, 1, 2} {
		l.m.chFacts(x, st, q0)
		_ = k
	}
	l.m.chFacts(x, st, q1)
	kn := kindName(P, kind)
	isDelim := UF("IsDelimitedIdentifierStart", SBool, c(0))
	isStart := UF("IsIdentifierStart", SBool, c(0))
	st.assume(dialectContract("IsIdentifierStart", c(0)))
	st.assume(dialectContract("IsDelimitedIdentifierStart", c(0)))
	switch kn {
	case "":
		return "the kind is not a constant: " + kind.String()
	case "Whitespace":
		switch {
		case constVal(" "):
			if n(1) && pr(is(0, ' ')) {
				return ""
			}
		case constVal("\t"):
			if n(1) && pr(is(0, '\t')) {
				return ""
			}
		case constVal("\n"):
			if n(1) && pr(is(0, '\n')) {
				return ""
			}
			if n(1) && pr(And(is(0, '\r'), Not(is(1, '\n')))) {
				return ""
			}
			if n(2) && pr(And(is(0, '\r'), is(1, '\n'))) {
				return ""
			}
		}
		return "whitespace with another value or length"
	case "SQLKeyword":
		if pr(Or(isStart, is(0, 'N'))) {
			if !word(func(s *Term) bool { return pr(Eq(s, rstr(q0, q1))) }, Zero) {
				return "the word's value is not its own characters, or its quote style or keyword is wrong"
			}
			if !pr(Lt(q0, q1)) {
				return "the word may be empty"
			}
			if !pr(rng("part", Add(q0, One), q1)) {
				return "a character of the word may not be an identifier character"
			}
			if !pr(Not(UF("IsIdentifierPart", SBool, chAt(q1)))) {
				return "the word may stop before its last character"
			}
			if pr(Not(is(0, 'N'))) || pr(Or(Not(Eq(q1, Add(q0, One))), Not(Eq(chAt(q1), Int('\''))))) {
				return ""
			}
			return "N before a quote is read as a word"
		}
		if pr(isDelim) {
			for _, d := range []struct {
				open, close rune
			}{{'"', '"'}, {'`', '`'}, {'[', ']'}} {
				if !pr(is(0, d.open)) {
					continue
				}
				e := Sub(q1, One)
				if !pr(Lt(Add(q0, One), q1)) {
					return "the delimited identifier has no end"
				}
				if !word(func(s *Term) bool { return pr(Eq(s, rstr(Add(q0, One), e))) }, c(0)) {
					return "the delimited identifier's value is not its own characters, or its quote style or keyword is wrong: " + val.String() + " " + x.load(st, func() *Term { a, _ := fieldOf(val.A[0], val.T.Underlying().(*types.Pointer).Elem(), "Value"); return a }(), types.Typ[types.String]).String()
				}
				if !pr(rng("not"+string(d.close), Add(q0, One), e)) || !pr(Eq(chAt(e), Int(int64(d.close)))) {
					return "the delimited identifier does not end at the first closing quote"
				}
				return ""
			}
		}
		return "neither an identifier start nor a delimiter"
	case "Number":
		if pr(And(Le(Int('0'), c(0)), Le(c(0), Int('9')), Lt(q0, q1))) && pr(rng("num", q0, q1)) && pr(Not(charPred("num", q1))) &&
			strVal(func(v *Term) *Term { return Eq(v, rstr(q0, q1)) }) {
			return ""
		}
		return "not the longest run of digits and periods with its own text as value"
	case "SingleQuotedString", "NationalStringLiteral":
		o := int64(1)
		if kn == "NationalStringLiteral" {
			o = 2
			if !pr(And(is(0, 'N'), is(1, '\''))) {
				return "does not start with N'"
			}
		} else if !pr(is(0, '\'')) {
			return "does not start with a quote"
		}
		b, e := Add(q0, Int(o)), Sub(q1, One)
		l.m.chFacts(x, st, q1)
		if !pr(Le(b, e)) || !pr(rng("qok", b, e)) || !pr(Eq(chAt(e), Int('\''))) || !pr(Not(Eq(chAt(q1), Int('\'')))) {
			return "does not end at the first single quote that is not doubled"
		}
		if !strVal(func(v *Term) *Term { return Eq(v, undq(b, e)) }) {
			return "the value is not the literal's text with doubled quotes undone: " + val.String()
		}
		return ""
	case "Comment":
		b := Add(q0, Int(2))
		if pr(And(is(0, '-'), is(1, '-'))) {
			if pr(rng("nonl", b, q1)) && pr(Or(Eq(chAt(q1), Int('\n')), Eq(chAt(q1), Int(-1)))) && strVal(func(v *Term) *Term { return Eq(v, rstr(b, q1)) }) {
				return ""
			}
			return "not the rest of the line with its own text"
		}
		if pr(And(is(0, '/'), is(1, '*'))) {
			e := Sub(q1, Int(2))
			if !pr(Le(b, e)) || !pr(And(Eq(chAt(e), Int('*')), Eq(chAt(Add(e, One)), Int('/')))) || !pr(rng("noclose", b, Sub(q1, One))) {
				return "does not end at the first */"
			}
			if !strVal(func(v *Term) *Term { return Eq(v, rstr(b, e)) }) {
				return "the value is not the comment's own text: " + val.String()
			}
			return ""
		}
		return "does not start like a comment"
	case "Char":
		if !n(1) || !strVal(func(v *Term) *Term { return Eq(v, rstr(q0, q1)) }) {
			return "not a single character with itself as value"
		}
		cs := []*Term{isStart, isDelim, Eq(c(0), Int(-1)), And(Le(Int('0'), c(0)), Le(c(0), Int('9')))}
		for _, r := range " \t\n\rN'(),-/+*%=.!<>:;\\[]&{}" {
			cs = append(cs, is(0, r))
		}
		if !pr(Not(Or(cs...))) {
			return "the character may start another token"
		}
		return ""
	}
	ops, ok := lexOps[kn]
	if !ok {
		return "no token has kind " + kn
	}
	for _, o := range ops {
		if !constVal(o) {
			continue
		}
		g := []*Term{Not(isDelim), Not(isStart)}
		if o != "[" {
			g = nil
		}
		for i, r := range o {
			g = append(g, is(int64(i), r))
		}
		for _, r := range lexLonger[o] {
			g = append(g, Not(is(1, r)))
		}
		if n(int64(len(o))) && pr(And(g...)) {
			return ""
		}
	}
	return "not the operator " + strings.Join(ops, " or ") + " as the longest match"
}

// illegal: is the text at q0 one that must be reported?
func (l *lexSetup) illegal(st *State) string {
	x, q0 := l.x, l.m.q0
	q1 := l.m.q(st, l.sc)
	pr := func(g *Term) bool { return x.Prove(st, g) }
	is := func(k int64, r rune) *Term { return Eq(chAt(Add(q0, Int(k))), Int(int64(r))) }
	if pr(is(0, '!')) && pr(Not(is(1, '='))) {
		return ""
	}
	l.m.chFacts(x, st, q1)
	if !pr(Eq(chAt(q1), Int(-1))) {
		return "an error although more text follows"
	}
	if pr(is(0, '\'')) && pr(rng("qok", Add(q0, One), q1)) {
		return ""
	}
	if pr(And(is(0, 'N'), is(1, '\''))) && pr(rng("qok", Add(q0, Int(2)), q1)) {
		return ""
	}
	if pr(And(is(0, '/'), is(1, '*'))) && pr(rng("noclose", Add(q0, Int(2)), q1)) {
		return ""
	}
	if pr(UF("IsDelimitedIdentifierStart", SBool, chAt(q0))) {
		for o, c := range map[rune]rune{'"': '"', '`': '`', '[': ']'} {
			if pr(is(0, o)) && pr(rng("not"+string(c), Add(q0, One), q1)) {
				return ""
			}
		}
	}
	return "an error although the text is neither unterminated nor illegal"
}

func checkNext(P *Program, rep *Report, want map[string]bool) {
	f := P.funcs["(*sqltoken.Tokenizer).next"]
	if f == nil {
		fatalf("no method Tokenizer.next")
	}
	l := newLex(P, rep, f)
	x := l.x
	n := 0
	kinds := map[string]int{}
	for _, e := range l.splitKinds(x.Run(f, []*Term{l.t}, nil, l.st, nil)) {
		if e.kind == exPanic {
			x.Ob(fname(f), "no-panic", "next does not panic", false, e.pval.String()+pathStr(e.st), f.Pos())
			continue
		}
		n++
		st := e.st
		q1 := l.m.q(st, l.sc)
		l.m.chFacts(x, st, q1)
		err := e.vals[2]
		what, why := "", ""
		switch {
		case x.Prove(st, Eq(err, Nil)):
			what = "token"
			kn := kindName(P, e.vals[0])
			kinds[kn]++
			if want["C05"] {
				why = l.tokenOf(P, st, e.vals[0], e.vals[1], q1)
				if why == "" && !x.Prove(st, And(Lt(l.m.q0, q1), Le(q1, inputN))) {
					why = "the token covers no character"
				}
				x.Ob(fname(f), "post:token", fmt.Sprintf("a %s token is the longest match with its own value", kn), why == "", whyPath(why, st), f.Pos())
			}
			if want["C06"] {
				ok := x.Prove(st, And(Eq(x.load(st, l.lineA, l.intT), advL(q1)), Eq(x.load(st, l.colA, l.intT), advC(q1))))
				x.Ob(fname(f), "post:position", fmt.Sprintf("after a %s token, Line and Col are the position after its characters", kn), ok,
					"Line = "+x.load(st, l.lineA, l.intT).String()+", Col = "+x.load(st, l.colA, l.intT).String()+" after reading up to "+q1.String()+pathStr(st), f.Pos())
			}
			if want["C03"] {
				why = l.shape(st, e.vals[0], e.vals[1])
				x.Ob(fname(f), "shape", fmt.Sprintf("a %s token has a value of the type that goes with its kind", kn), why == "", whyPath(why, st), f.Pos())
			}
			if want["C04"] {
				x.Ob(fname(f), "post:progress", fmt.Sprintf("a %s token covers at least one character", kn), x.Prove(st, And(Lt(l.m.q0, q1), Le(q1, inputN))), q1.String()+pathStr(st), f.Pos())
			}
		case err == l.m.eofErr || x.Prove(st, Eq(err, l.m.eofErr)):
			what = "EOF"
			l.m.chFacts(x, st, l.m.q0)
			ok := x.Prove(st, And(Eq(l.m.q0, inputN), Eq(q1, inputN)))
			if want["C05"] {
				x.Ob(fname(f), "post:eof", "EOF is returned exactly at the end of the text", ok, pathStr(st), f.Pos())
			}
		case x.Prove(st, And(Not(Eq(err, Nil)), Not(Eq(err, l.m.eofErr)))):
			what = "error"
			if want["C05"] {
				why = l.illegal(st)
				x.Ob(fname(f), "post:error", "an error is returned only for unterminated or illegal text", why == "", whyPath(why, st), f.Pos())
			}
		default:
			x.Ob(fname(f), "post", "whether an error is returned is decided", false, err.String()+pathStr(st), f.Pos())
		}
		_ = what
	}
	if want["C05"] {
		for _, k := range []string{"SQLKeyword", "Number", "Char", "SingleQuotedString", "NationalStringLiteral", "Whitespace", "Comment"} {
			x.Ob(fname(f), "reachable", "next returns "+k+" tokens", kinds[k] > 0, "", f.Pos())
		}
		for k := range lexOps {
			x.Ob(fname(f), "reachable", "next returns "+k+" tokens", kinds[k] > 0, "", f.Pos())
		}
	}
	x.Ob(fname(f), "reachable", "next returns", n > 0, "", f.Pos())
	rep.done(x, f)
}

// splitKinds: one exit per kind, where the returned kind is not a constant.
func (l *lexSetup) splitKinds(es []Exit) []Exit {
	var out []Exit
	for _, e := range es {
		if e.kind == exPanic || e.vals[0].Op == "int" {
			out = append(out, e)
			continue
		}
		for _, k := range kindConsts(l.m.P) {
			if l.x.feasible(e.st, Eq(e.vals[0], k)) {
				st := e.st.clone()
				st.assume(Eq(e.vals[0], k))
				e2 := e
				e2.st = st
				e2.vals = append([]*Term{k}, e.vals[1:]...)
				out = append(out, e2)
			}
		}
		var other []*Term
		for _, k := range kindConsts(l.m.P) {
			other = append(other, Not(Eq(e.vals[0], k)))
		}
		if l.x.feasible(e.st, And(other...)) {
			e.st = e.st.clone()
			e.st.assume(And(other...))
			out = append(out, e)
		}
	}
	return out
}

func kindConsts(P *Program) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var names []string
	for n := range P.pkgs["sqltoken"].Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if c, ok := P.pkgs["sqltoken"].Members[n].(*ssa.NamedConst); ok && strings.HasSuffix(c.Type().String(), "sqltoken.Kind") {
			if t := constTerm(c.Value); !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	return out
}

func whyPath(why string, st *State) string {
	if why == "" {
		return ""
	}
	return why + pathStr(st)
}

// ---------- contract of next, for its callers ----------

func tokEnd(q *Term) *Term  { return UF("tokEnd", SInt, q) }
func tokKind(q *Term) *Term { return UF("tokKind", SInt, q) }
func tokVal(q *Term) *Term  { return UF("tokVal", SRef, q) }

// useNext makes callers use next by its contract.
func (l *lexSetup) useNext() {
	m := l.m
	m.onCall = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
		if ci.fn == nil || fname(ci.fn) != "(*sqltoken.Tokenizer).next" {
			return nil, false
		}
		q := m.q(st, l.sc)
		x.Ob(fname(x.top), "requires:next", "next is called on the tokenizer, with its position right", ci.args[0] == l.t &&
			x.Prove(st, And(Eq(x.load(st, l.lineA, l.intT), advL(q)), Eq(x.load(st, l.colA, l.intT), advC(q)))), pathStr(st), ci.instr.Pos())
		ill := constOf(l.m.P, "ILLEGAL")
		var outs []Outcome
		eof := st.clone()
		m.chFacts(x, eof, q)
		eof.assume(Eq(q, inputN))
		if x.feasible(eof, Eq(q, inputN)) {
			outs = append(outs, Outcome{st: eof, vals: []*Term{ill, Box(Str(""), types.Typ[types.String]), m.eofErr}})
		}
		bad := st.clone()
		bad.assume(Lt(q, inputN))
		be := newErr("lex")
		bad.assume(Not(Eq(be, Nil)))
		bad.assume(Not(Eq(be, m.eofErr)))
		q1 := Fresh("q", SInt, nil)
		bad.assume(Le(q, q1))
		bad.assume(Le(q1, inputN))
		bad.mem[qCell(l.sc)] = q1
		bad.mem[l.lineA] = Fresh("line", SInt, l.intT)
		bad.mem[l.colA] = Fresh("col", SInt, l.intT)
		bad.assume(UF("illegalAt", SBool, q))
		outs = append(outs, Outcome{st: bad, vals: []*Term{ill, FreshT("v", ci.fn.Signature.Results().At(1).Type()), be}})
		e := tokEnd(q)
		st.assume(And(Lt(q, e), Le(e, inputN)))
		st.assume(Not(UF("illegalAt", SBool, q)))
		st.assume(Not(Eq(tokKind(q), ill)))
		st.mem[qCell(l.sc)] = e
		st.mem[l.lineA] = advL(e)
		st.mem[l.colA] = advC(e)
		return append(outs, Outcome{st: st, vals: []*Term{tokKind(q), tokVal(q), Nil}}), true
	}
}

func constOf(P *Program, n string) *Term {
	return constTerm(P.pkgs["sqltoken"].Const(n).Value)
}

// isTok: does p, in st, hold the token that starts at q?
func (l *lexSetup) isTok(x *Exec, st *State, p, q *Term) string {
	T := l.m.P.pkgs["sqltoken"].Type("Token").Type()
	get := func(n string) *Term { a, t := fieldOf(p, T, n); return x.load(st, a, t) }
	if !x.Prove(st, And(Eq(get("Kind"), tokKind(q)), Eq(get("Value"), tokVal(q)))) {
		return "its kind or value is not next's: " + get("Kind").String() + ", " + get("Value").String()
	}
	for _, w := range []struct {
		n string
		k *Term
	}{{"From", q}, {"To", tokEnd(q)}} {
		v := get(w.n)
		pt := l.m.P.pkgs["sqltoken"].Type("Pos").Type()
		li, ci := fieldIndex(pt, "Line"), fieldIndex(pt, "Col")
		if !x.Prove(st, And(Eq(Sel(v, li, SInt, l.intT), advL(w.k)), Eq(Sel(v, ci, SInt, l.intT), advC(w.k)))) {
			return w.n + " is " + v.String()
		}
	}
	return ""
}

func fieldIndex(t types.Type, n string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i
		}
	}
	fatalf("no field %s in %s", n, t)
	return 0
}

func (l *lexSetup) skipped(q *Term) *Term {
	return And(Not(l.parseComment), Or(Eq(tokKind(q), constOf(l.m.P, "Whitespace")), Eq(tokKind(q), constOf(l.m.P, "Comment"))))
}

// checkScan: Scan and NextToken.
func checkScan(P *Program, rep *Report) {
	for _, name := range []string{"Scan", "NextToken"} {
		f := P.funcs["(*sqltoken.Tokenizer)."+name]
		if f == nil {
			fatalf("no method Tokenizer.%s", name)
		}
		l := newLex(P, rep, f)
		l.useNext()
		x := l.x
		args := []*Term{l.t}
		var out *Term
		st := l.st
		if name == "Scan" {
			out = Sym("token", SRef, f.Params[1].Type())
			st.assume(Not(Eq(out, Nil)))
			args = append(args, out)
		}
		frame := x.onStore
		x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
			if out != nil && root(addr) == out {
				return
			}
			frame(x, fr, st, addr, val, pos)
		}
		q0 := l.m.q0
		n := 0
		for _, e := range x.Run(f, args, nil, st, nil) {
			if e.kind == exPanic {
				x.Ob(fname(f), "no-panic", name+" does not panic", false, e.pval.String()+pathStr(e.st), f.Pos())
				continue
			}
			n++
			q1 := l.m.q(e.st, l.sc)
			tok, err := e.vals[0], e.vals[1]
			pr := func(g *Term) bool { return x.Prove(e.st, g) }
			why := ""
			switch {
			case pr(Eq(err, l.m.eofErr)):
				if !pr(Eq(q0, inputN)) || tok != Nil {
					why = "EOF before the end of the text, or with a token"
				}
			case pr(Not(Eq(err, Nil))):
				if !pr(UF("illegalAt", SBool, q0)) {
					why = "an error although the text is legal here"
				}
			case pr(Eq(err, Nil)):
				if !pr(Eq(q1, tokEnd(q0))) {
					why = "does not read exactly one token"
				} else if tok == Nil {
					if !pr(l.skipped(q0)) {
						why = "a token is dropped"
					}
				} else if pr(l.skipped(q0)) {
					why = "whitespace or comment returned although they are disabled"
				} else if !pr(Not(l.skipped(q0))) {
					why = "whether the token is to be skipped was not decided"
				} else if out != nil && tok != out {
					why = "another token object is returned"
				} else {
					why = l.isTok(x, e.st, tok, q0)
				}
				if why == "" && !pr(And(Eq(x.load(e.st, l.lineA, l.intT), advL(q1)), Eq(x.load(e.st, l.colA, l.intT), advC(q1)))) {
					why = "the position is not kept"
				}
			default:
				why = "whether an error is returned was not decided"
			}
			if pr(Eq(err, Nil)) && tok != Nil {
				get := func(n string) *Term {
					a, t := fieldOf(tok, P.pkgs["sqltoken"].Type("Token").Type(), n)
					return x.load(e.st, a, t)
				}
				ok := pr(And(Eq(get("Kind"), tokKind(q0)), Eq(get("Value"), tokVal(q0))))
				x.Ob(fname(f), "shape", fmt.Sprintf("%s, return %d: a token with kind and value as read", name, n), ok, get("Kind").String()+" "+get("Value").String(), f.Pos())
			}
			x.Ob(fname(f), "post:token", fmt.Sprintf("%s, return %d: exactly the next token with kind, value, From and To", name, n), why == "", whyPath(why, e.st), f.Pos())
		}
		x.Ob(fname(f), "reachable", name+" returns", n >= 4, fmt.Sprint(n), f.Pos())
		rep.done(x, f)
	}
}

// toksWf: every element of s is a token with the kind and the value that next gave it.
func toksWf(s *Term) *Term { return UF("toksWf", SBool, s) }

func (m *lexModel) proveWf(x *Exec, st *State, s *Term) bool {
	if isEmptySeq(s) || st.pcs[toksWf(s)] {
		return true
	}
	last, rest := splitLast(s)
	if last == nil || !isFreshRoot(last) || !m.proveWf(x, st, rest) {
		return false
	}
	T := m.P.pkgs["sqltoken"].Type("Token").Type()
	get := func(n string) *Term { a, t := fieldOf(last, T, n); return x.load(st, a, t) }
	k := get("Kind")
	return k.Op == "uf" && k.S == "tokKind" && x.Prove(st, Eq(get("Value"), tokVal(k.A[0])))
}

// shape: the value of a token is of the type that goes with its kind.
func (l *lexSetup) shape(st *State, kind, val *Term) string {
	x, P := l.x, l.m.P
	pr := func(g *Term) bool { return x.Prove(st, g) }
	word := val.Op == "box" && val.T != nil && strings.HasSuffix(tstr(val.T), "sqltoken.SQLWord")
	if word && !nonNil(val.A[0]) && !pr(Not(Eq(val.A[0], Nil))) {
		return "nil word"
	}
	isK := Eq(kind, constOf(P, "SQLKeyword"))
	if word && !pr(isK) || !word && !pr(Not(isK)) {
		return "words and only words are of kind SQLKeyword: " + kind.String() + ", " + val.String()
	}
	if val.Op != "box" {
		return "unknown value " + val.String()
	}
	if !pr(Not(Eq(kind, constOf(P, "ILLEGAL")))) {
		return "kind ILLEGAL"
	}
	if val.A[0].Sort == SStr {
		return ""
	}
	for _, n := range []string{"Number", "SingleQuotedString", "NationalStringLiteral", "Whitespace", "Comment"} {
		if !pr(Not(Eq(kind, constOf(P, n)))) {
			return n + " with value " + val.String()
		}
	}
	return ""
}

func toksOK(s, q *Term) *Term { return UF("toksOK", SBool, s, q) }

func (m *lexModel) proveToks(x *Exec, st *State, goal *Term) bool {
	if st.pcs[goal] {
		return true
	}
	s, q := goal.A[0], goal.A[1]
	if (s.Op == "nilseq" || s.Op == "seq" && len(s.A) == 0) && m.eq(x, st, q, Zero) {
		return true
	}
	l := x.lex
	for _, c := range facts(x, st) {
		if c.Op != "uf" || c.S != "toksOK" {
			continue
		}
		s0, qa := c.A[0], c.A[1]
		if s0 == s && m.eq(x, st, qa, q) {
			return true
		}
		if !m.eq(x, st, q, tokEnd(qa)) {
			continue
		}
		if s == s0 && x.Prove(st, l.skipped(qa)) {
			return true
		}
		var p *Term
		if s.Op == "snoc" && s.A[0] == s0 {
			p = s.A[1]
		} else if s.Op == "cat" && s.A[0] == s0 && s.A[1].Op == "seq" && len(s.A[1].A) == 1 {
			p = s.A[1].A[0]
		}
		if p != nil && isFreshRoot(p) && x.Prove(st, Not(l.skipped(qa))) && l.isTok(x, st, p, qa) == "" {
			return true
		}
	}
	return false
}

func checkTokenize(P *Program, rep *Report, want map[string]bool) {
	f := P.funcs["(*sqltoken.Tokenizer).Tokenize"]
	if f == nil {
		fatalf("no method Tokenizer.Tokenize")
	}
	l := newLex(P, rep, f)
	l.useNext()
	x := l.x
	x.lex = l
	st := l.st
	st.assume(Eq(l.m.q0, Zero))
	st.assume(Eq(advL(Zero), One))
	st.assume(Eq(advC(Zero), One))
	base := x.loopCands
	x.loopCands = func(x *Exec, lc *LoopCtx) []*Term {
		out := base(x, lc)
		var q *Term
		for s, c := range lc.cellOf {
			if c.Op == "uf" && c.S == "ghost.q" {
				q = s
			}
		}
		if q != nil {
			for _, s := range lc.vars {
				if s.Sort == SSeq && s.Op == "sym" {
					out = append(out, toksOK(s, q), toksWf(s))
				}
			}
		}
		return out
	}
	n := 0
	oks := 0
	for _, e := range x.Run(f, []*Term{l.t}, nil, st, nil) {
		if e.kind == exPanic {
			x.Ob(fname(f), "no-panic", "Tokenize does not panic", false, e.pval.String()+pathStr(e.st), f.Pos())
			continue
		}
		n++
		pr := func(g *Term) bool { return x.Prove(e.st, g) }
		q1 := l.m.q(e.st, l.sc)
		why := ""
		switch {
		case pr(Eq(e.vals[1], Nil)):
			oks++
			if !pr(Eq(q1, inputN)) {
				why = "returns before the end of the text"
			} else if !pr(toksOK(e.vals[0], inputN)) {
				why = "the list is not exactly the tokens of the text: " + e.vals[0].String()
			}
		case pr(Not(Eq(e.vals[1], Nil))):
			if e.vals[0] != NilSeq {
				why = "tokens are returned together with an error"
			}
			ok := false
			for _, c := range e.st.pc {
				ok = ok || c.Op == "uf" && c.S == "illegalAt"
			}
			if !ok {
				why = "an error although the text is legal"
			}
		default:
			why = "whether an error is returned was not decided"
		}
		if pr(Eq(e.vals[1], Nil)) {
			x.Ob(fname(f), "shape", fmt.Sprintf("Tokenize, return %d: every token is one that was read", n), pr(toksWf(e.vals[0])), e.vals[0].String(), f.Pos())
		} else {
			x.Ob(fname(f), "shape", fmt.Sprintf("Tokenize, return %d: no tokens with an error", n), pr(Not(Eq(e.vals[1], Nil))) && e.vals[0] == NilSeq, e.vals[0].String(), f.Pos())
		}
		x.Ob(fname(f), "post:tokens", fmt.Sprintf("Tokenize, return %d: all tokens of the text in order, or an error for an illegal one", n), why == "", whyPath(why, e.st), f.Pos())
	}
	x.Ob(fname(f), "reachable", "Tokenize returns", n >= 2 && oks > 0, "", f.Pos())
	rep.done(x, f)
	checkNewTokenizer(P, rep)
}

func checkNewTokenizer(P *Program, rep *Report) {
	tT := P.pkgs["sqltoken"].Type("Tokenizer").Type()
	for _, name := range []string{"NewTokenizer", "NewTokenizerWithOptions"} {
		f := P.funcs["sqltoken."+name]
		if f == nil {
			fatalf("no function %s", name)
		}
		x := rep.exec(P, rep.prop)
		m := &lexModel{P: P, q0: Zero}
		x.model = m.model
		x.checkPanics = true
		x.top = f
		st := newState()
		src := Sym("src", SRef, f.Params[0].Type())
		var second *Term
		if name == "NewTokenizer" {
			second = Sym("dialect", SRef, f.Params[1].Type())
		} else {
			second = FreshT("options", f.Params[1].Type())
		}
		m.onCall = func(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
			if ci.fn == nil && ci.method == "" && ci.dyn != nil && len(ci.args) == 1 {
				// a TokenizerOption: sets Dialect or parseComment only (checked below)
				for _, n := range []string{"Dialect", "parseComment"} {
					a, t := fieldOf(ci.args[0], tT, n)
					st.mem[a] = FreshT(n, t)
				}
				return []Outcome{{st: st}}, true
			}
			return nil, false
		}
		n := 0
		for _, e := range x.Run(f, []*Term{src, second}, nil, st, nil) {
			if e.kind == exPanic {
				x.Ob(fname(f), "no-panic", name+" does not panic", false, e.pval.String(), f.Pos())
				continue
			}
			n++
			t := e.vals[0]
			get := func(n string) *Term { a, ft := fieldOf(t, tT, n); return x.load(e.st, a, ft) }
			ok := x.Prove(e.st, And(Eq(get("Line"), One), Eq(get("Col"), One), Not(Eq(get("Scanner"), Nil)))) && m.q(e.st, get("Scanner")) == Zero
			_, inited := e.st.mem[qCell(get("Scanner"))]
			x.Ob(fname(f), "post", name+": a tokenizer at line 1, column 1 of an initialised scanner", ok && inited, get("Line").String()+" "+get("Scanner").String(), f.Pos())
			if name == "NewTokenizer" {
				x.Ob(fname(f), "post", "NewTokenizer: the given dialect, comments kept", get("Dialect") == second && x.Prove(e.st, get("parseComment")), "", f.Pos())
			}
		}
		x.Ob(fname(f), "reachable", name+" returns", n > 0, "", f.Pos())
		rep.done(x, f)
	}
	// the options
	for _, f := range P.allFuncs() {
		if f.Parent() == nil || f.Pkg == nil || f.Pkg.Pkg.Name() != "sqltoken" || len(f.Params) != 1 || !strings.HasSuffix(f.Params[0].Type().String(), "sqltoken.Tokenizer") {
			continue
		}
		x := rep.exec(P, rep.prop)
		x.checkPanics = true
		x.top = f
		st := newState()
		t := Sym("t", SRef, f.Params[0].Type())
		st.assume(Not(Eq(t, Nil)))
		x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
			ok := isFreshRoot(addr)
			for _, n := range []string{"Dialect", "parseComment"} {
				a, _ := fieldOf(t, tT, n)
				ok = ok || a == addr
			}
			x.Ob(fname(f), "frame", "an option sets only Dialect or parseComment", ok, addr.String(), pos)
		}
		var binds []*Term
		for _, v := range f.FreeVars {
			b := FreshT(v.Name(), v.Type())
			st.assume(Not(Eq(b, Nil))) // captured variables
			binds = append(binds, b)
		}
		for _, e := range x.Run(f, []*Term{t}, binds, st, nil) {
			x.Ob(fname(f), "no-panic", "the option returns", e.kind == exRet, "", f.Pos())
		}
		rep.done(x, f)
	}
}

// checkMakeKeyword: the word's own spelling, quote style and upper-case keyword.
func checkMakeKeyword(P *Program, rep *Report) {
	f := P.funcs["sqltoken.MakeKeyword"]
	if f == nil {
		fatalf("no function MakeKeyword")
	}
	wT := P.pkgs["sqltoken"].Type("SQLWord").Type()
	x := rep.exec(P, rep.prop)
	x.checkPanics = true
	x.top = f
	m := &lexModel{P: P, q0: Zero}
	x.model = m.model
	st := newState()
	w := Sym("word", SStr, f.Params[0].Type())
	qs := Sym("quoteStyle", SInt, f.Params[1].Type())
	up := func(s *Term) *Term { return UF("strings.ToUpper", SStr, s) }
	wordIs := func(st *State, p, val, q *Term) *Term {
		get := func(n string) *Term { a, t := fieldOf(p, wT, n); return x.load(st, a, t) }
		return And(Eq(get("Value"), val), Eq(get("QuoteStyle"), q), Eq(get("Keyword"), up(val)))
	}
	caches := cacheGlobals(P)
	x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
		if addr.Op == "global" && caches[addr.S] {
			return Sym(addr.S, SRef, t)
		}
		return nil
	}
	x.onLookup = func(st *State, mp, k, v, ok *Term) {
		if mp.Op == "sym" && caches[mp.S] {
			st.assume(Implies(ok, And(Not(Eq(v, Nil)), wordIs(st, v, k, Zero))))
		}
	}
	x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
		ok := isFreshRoot(addr)
		if !ok && addr.Op == "addr.i" && addr.S == "map" && addr.A[0].Op == "sym" && caches[addr.A[0].S] {
			ok = x.Prove(st, And(Not(Eq(val, Nil)), wordIs(st, val, addr.A[1], Zero)))
		}
		x.Ob(fname(f), "frame", "store goes to new memory (or keeps the cache's invariant)", ok, addr.String(), pos)
	}
	n := 0
	for _, e := range x.Run(f, []*Term{w, qs}, nil, st, nil) {
		if e.kind == exPanic {
			x.Ob(fname(f), "no-panic", "MakeKeyword does not panic", false, e.pval.String(), f.Pos())
			continue
		}
		n++
		ok := x.Prove(e.st, And(Not(Eq(e.vals[0], Nil)), wordIs(e.st, e.vals[0], w, qs)))
		x.Ob(fname(f), "post", fmt.Sprintf("return %d: Value is the word, QuoteStyle the given one, Keyword the word in upper case", n), ok, e.vals[0].String()+pathStr(e.st), f.Pos())
	}
	x.Ob(fname(f), "reachable", "MakeKeyword returns", n > 0, "", f.Pos())
	rep.done(x, f)
	checkWordCache(P, rep, caches, wT)
}

// cacheGlobals: package variables of type map[string]*SQLWord.
func cacheGlobals(P *Program) map[string]bool {
	out := map[string]bool{}
	for _, mb := range P.pkgs["sqltoken"].Members {
		g, ok := mb.(*ssa.Global)
		if !ok {
			continue
		}
		mp, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		if ok && strings.HasSuffix(mp.Elem().String(), "sqltoken.SQLWord") {
			out[g.RelString(nil)] = true
		}
	}
	return out
}

// checkWordCache: every function that stores into a word cache keeps its invariant
// (cache[k] is the word k without quotes), and no word is modified once made.
func checkWordCache(P *Program, rep *Report, caches map[string]bool, wT types.Type) {
	up := func(s *Term) *Term { return UF("strings.ToUpper", SStr, s) }
	keys, bad := keywordKeys(P)
	x0 := rep.exec(P, rep.prop)
	x0.top = P.funcs["sqltoken.MakeKeyword"]
	x0.Ob("dialect.init", "keywords", fmt.Sprintf("the keys of dialect.Keywords are constants in upper case, and upper(lower(k)) == k (%d keys)", len(keys)), bad == "" && len(keys) > 100, bad, token.NoPos)
	writes := 0
	var storing []*ssa.Function
	for _, f := range P.allFuncs() {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			continue
		}
		stores := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if mp, ok := in.Map.Type().Underlying().(*types.Map); ok && strings.HasSuffix(mp.Elem().String(), "sqltoken.SQLWord") {
						stores = true
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fa.X.Type().String() == types.NewPointer(wT).String() {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							x0.Ob(fname(f), "frame", "a word is modified only while it is being made", false, in.String(), in.Pos())
						}
					}
					if in.Val.Type().String() == wT.String() {
						if _, fresh := in.Addr.(*ssa.Alloc); !fresh {
							x0.Ob(fname(f), "frame", "a word is modified only while it is being made", false, in.String(), in.Pos())
						}
					}
				}
			}
		}
		if stores {
			storing = append(storing, f)
		}
	}
	// an unexported helper is checked inside its callers
	callers := staticCallers(P)
	done := map[*ssa.Function]bool{}
	for len(storing) > 0 {
		f := storing[0]
		storing = storing[1:]
		if done[f] || fname(f) == "sqltoken.MakeKeyword" {
			continue
		}
		done[f] = true
		if len(callers[f]) > 0 && f.Object() != nil && !f.Object().Exported() && !strings.HasPrefix(f.Name(), "init") {
			storing = append(storing, callers[f]...)
			continue
		}
		writes++
		x := rep.exec(P, rep.prop)
		x.checkPanics = true
		x.top = f
		st := newState()
		x.loadHook = func(x *Exec, st *State, addr *Term, t types.Type) *Term {
			if addr.Op == "global" && (caches[addr.S] || strings.HasSuffix(addr.S, "dialect.Keywords")) {
				return Sym(addr.S, SRef, t)
			}
			return nil
		}
		for c := range caches {
			st.assume(Not(Eq(Sym(c, SRef, nil), Nil)))
		}
		x.onRange = func(st *State, mp, k *Term) {
			if mp.Op == "sym" && strings.HasSuffix(mp.S, "dialect.Keywords") {
				st.assume(Eq(up(k), k))
				st.assume(Eq(up(UF("strings.ToLower", SStr, k)), k))
			}
		}
		x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
			ok := isFreshRoot(addr)
			if !ok && addr.Op == "addr.i" && addr.S == "map" && addr.A[0].Op == "sym" && caches[addr.A[0].S] {
				get := func(n string) *Term { a, t := fieldOf(val, wT, n); return x.load(st, a, t) }
				k := addr.A[1]
				ok = x.Prove(st, And(Not(Eq(val, Nil)), Eq(get("Value"), k), Eq(get("QuoteStyle"), Zero), Eq(get("Keyword"), up(k))))
			}
			x.Ob(fname(f), "invariant:cache", "a cached word is the word of its key", ok, addr.String()+" := "+val.String()+pathStr(st), pos)
		}
		args := []*Term{}
		for _, p := range f.Params {
			args = append(args, FreshT(p.Name(), p.Type()))
		}
		for _, e := range x.Run(f, args, nil, st, nil) {
			x.Ob(fname(f), "no-panic", "returns", e.kind == exRet, "", f.Pos())
		}
		rep.done(x, f)
	}
	_ = writes
	rep.done(x0, nil)
}

// staticCallers: who calls each function of the module by name.
func staticCallers(P *Program) map[*ssa.Function][]*ssa.Function {
	out := map[*ssa.Function][]*ssa.Function{}
	for _, f := range P.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						out[g] = append(out[g], f)
					}
				}
			}
		}
	}
	return out
}

// keywordKeys: the constant keys stored in dialect.Keywords.
func keywordKeys(P *Program) (keys []string, bad string) {
	pk := P.pkgs["dialect"]
	for _, f := range P.allFuncs() {
		if f.Pkg != pk {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				c, ok := mu.Key.(*ssa.Const)
				if !ok {
					bad = "a key is not a constant: " + mu.String()
					continue
				}
				k := constTerm(c).S
				keys = append(keys, k)
				if strings.ToUpper(k) != k || strings.ToUpper(strings.ToLower(k)) != k {
					bad = "key " + k + " is not in upper case"
				}
			}
		}
	}
	return
}

// checkDialects: every dialect keeps the Dialect contract.
func checkDialects(P *Program, rep *Report) {
	for _, T := range P.implementers("dialect", "Dialect") {
		for _, mn := range []string{"IsIdentifierStart", "IsIdentifierPart", "IsDelimitedIdentifierStart"} {
			f := P.method(T, mn)
			if f == nil {
				fatalf("no method %s of %s", mn, T)
			}
			x := rep.exec(P, rep.prop)
			x.checkPanics = true
			x.top = f
			st := newState()
			rcv := Sym("d", SRef, T)
			st.assume(Not(Eq(rcv, Nil)))
			r := Sym("r", SInt, nil)
			x.onStore = func(x *Exec, fr *Frame, st *State, addr, val *Term, pos token.Pos) {
				x.Ob(fname(f), "frame", "the dialect modifies nothing", isFreshRoot(addr), addr.String(), pos)
			}
			n := 0
			for _, e := range x.Run(f, []*Term{rcv, r}, nil, st, nil) {
				if e.kind == exPanic {
					x.Ob(fname(f), "no-panic", "returns", false, "", f.Pos())
					continue
				}
				n++
				if ex := dialectChars(tstr(T), mn, r); ex != nil && rep.prop == "C05" {
					x.Ob(fname(f), "contract:characters", fmt.Sprintf("%s.%s holds of exactly the characters of the dialect", tstr(T), mn), x.Prove(e.st, Eq(e.vals[0], ex)), e.vals[0].String()+pathStr(e.st), f.Pos())
				}
				c := dialectContract(mn, r)
				p := UF(mn, SBool, r)
				goal := Subst(c, map[*Term]*Term{p: e.vals[0]})
				ok := x.Prove(e.st, goal)
				pure := true
				e.vals[0].walk(map[*Term]bool{}, func(t *Term) {
					if t.Op == "sym" && t != r {
						pure = false
					}
				})
				x.Ob(fname(f), "contract:dialect", fmt.Sprintf("%s.%s: depends on the character only and holds of no character that must start another token", tstr(T), mn), ok && pure, e.vals[0].String()+pathStr(e.st), f.Pos())
			}
			x.Ob(fname(f), "reachable", "returns", n > 0, "", f.Pos())
			rep.done(x, f)
		}
	}
}

// dialectChars: identifiers start with a letter, or @ (generic, MySQL) or _ (PostgreSQL), and go on
// with letters, digits, _ and @ or $; they are delimited by double quotes or (MySQL, PostgreSQL)
// backticks.
func dialectChars(T, mn string, r *Term) *Term {
	in := func(a, b rune) *Term { return And(Le(Int(int64(a)), r), Le(r, Int(int64(b)))) }
	is := func(a rune) *Term { return Eq(r, Int(int64(a))) }
	letter := Or(in('a', 'z'), in('A', 'Z'))
	pg := strings.Contains(T, "Postgresql")
	if !pg && !strings.Contains(T, "MySQL") && !strings.Contains(T, "Generic") {
		return nil
	}
	switch mn {
	case "IsIdentifierStart":
		if pg {
			return Or(letter, is('_'))
		}
		return Or(letter, is('@'))
	case "IsIdentifierPart":
		if pg {
			return Or(letter, in('0', '9'), is('_'), is('$'))
		}
		return Or(letter, in('0', '9'), is('_'), is('@'))
	}
	if strings.Contains(T, "Generic") {
		return is('"')
	}
	return Or(is('"'), is('`'))
}

func checkC05(P *Program, rep *Report) {
	w := map[string]bool{"C05": true}
	checkDialects(P, rep)
	checkNext(P, rep, w)
	checkMakeKeyword(P, rep)
	checkScan(P, rep)
	checkTokenize(P, rep, w)
	rep.obs = append(rep.obs, aliasing(P, "sqltoken", func(elem types.Type) bool { return tstr(elem) == "*sqltoken.Token" })...)
}

func checkC06(P *Program, rep *Report) {
	w := map[string]bool{"C06": true}
	checkDialects(P, rep)
	checkNext(P, rep, w)
	checkScan(P, rep)
	checkTokenize(P, rep, w)
}
