package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"gspec"
)

// C01: the result of a parse function is a derivation, in the grammar, of the tokens consumed.
//
// The ghost predicates of deriv.go are proved by matching a node against its production, token
// by token: a node that the function made is unfolded, for any other the contract of the function
// that returned it says which tokens it derives. Two more predicates serve loops over productions
// with several lists:
//
//	⊢R(rule,s1,s2,a,b)   the tokens a .. b-1 are the rows of the production with s1[i], s2[i]
//	⊢A(rule,v...,a,b)    the tokens a .. b-1 are the parts v of the any-order element of the
//	                     production, in some order
type deriver struct {
	m     *parseModel
	hide  bool // the nodes unfolded here disappear behind a predicate
	depth int
	best  int
	fail  string
	steps int
}

func (m *parseModel) deriver() *deriver { return &deriver{m: m, best: -1} }

func (d *deriver) note(f string, a ...interface{}) bool {
	if d.depth > d.best {
		d.best = d.depth
		d.fail = fmt.Sprintf(f, a...)
	}
	return false
}

type posK func(st *State, pos *Term) bool

type usedF struct {
	f    string
	next *usedF
}

func (u *usedF) has(f string) bool {
	for ; u != nil; u = u.next {
		if u.f == f {
			return true
		}
	}
	return false
}

var punctKind = map[string]string{"(": "LParen", ")": "RParen", ",": "Comma", ".": "Period", "*": "Mult", "+": "Plus", "-": "Minus", "/": "Div", "%": "Mod",
	"=": "Eq", "!=": "Neq", "<>": "Neq", "<": "Lt", ">": "Gt", "<=": "LtEq", ">=": "GtEq", "::": "DoubleColon", ";": "Semicolon", "[": "LBracket", "]": "RBracket"}

// sepTerm: the separator of a list as a term.
func (m *parseModel) sepTerm(e *gspec.Elem) *Term {
	if e.Sep == "" {
		return Int(-1)
	}
	k := m.kinds[punctKind[e.Sep]]
	if k == nil {
		return nil
	}
	if e.SepO {
		return UF("optsep", SInt, k)
	}
	return k
}

func (d *deriver) over() bool {
	d.steps++
	if d.steps > 30000 {
		d.depth = 1 << 20
		d.note("matching budget exceeded")
		return true
	}
	return false
}

// try: p holds on st. A quick look first.
func (d *deriver) is(st *State, g *Term) bool {
	e := st.eval(g)
	if e == True {
		return true
	}
	if e == False {
		return false
	}
	return d.m.x.Prove(st, e)
}

func (d *deriver) split(st *State, c *Term, yes, no func(*State) bool) bool {
	if d.is(st, c) {
		return yes(st)
	}
	if d.is(st, Not(c)) {
		return no(st)
	}
	a, b := st.clone(), st.clone()
	a.assume(c)
	b.assume(Not(c))
	return yes(a) && no(b)
}

// same: a and b are the same node.
func sameNode(a, b *Term) bool { return a == b }

// node matches the tokens from pos on with the node n.
func (d *deriver) node(st *State, n, pos *Term, k posK) bool {
	m := d.m
	if d.over() {
		return false
	}
	n = m.node(n)
	if n.Op == "ite" {
		return d.split(st, n.A[0], func(s *State) bool { return d.node(s, n.A[1], pos, k) }, func(s *State) bool { return d.node(s, n.A[2], pos, k) })
	}
	if n.Op == "box" && n.A[0].Op == "ite" {
		i := n.A[0]
		return d.split(st, i.A[0], func(s *State) bool { return d.node(s, Box(i.A[1], n.T), pos, k) }, func(s *State) bool { return d.node(s, Box(i.A[2], n.T), pos, k) })
	}
	seen := false
	for _, f := range m.preds(st, "⊢N") {
		if f.A[0] == n {
			seen = true
			if m.eqPos(st, f.A[1], pos) && d.step(func() bool { return k(st, f.A[2]) }) {
				return true
			}
		}
	}
	if n.Op == "box" && n.A[0].Op == "alloc" {
		name := strings.TrimPrefix(n.S, "*sqlast.")
		r := grammar(m.P).rules[name]
		if r == nil || r.Flags["noparse"] {
			return d.note("%s has no production", n.S)
		}
		return d.unfold(st, n.A[0], n.T.Underlying().(*types.Pointer).Elem(), r, pos, k)
	}
	if seen {
		return d.note("%s does not start at %s, or the rest does not follow it", n, pos)
	}
	return d.note("nothing is known of node %s", n)
}

func (d *deriver) step(f func() bool) bool {
	d.depth++
	r := f()
	d.depth--
	return r
}

// unfold matches with the production of the struct at a.
func (d *deriver) unfold(st *State, a *Term, T types.Type, r *gRule, pos *Term, k posK) bool {
	if d.hide {
		if d.m.hidden == nil {
			d.m.hidden = map[*Term]bool{}
		}
		d.m.hidden[a] = true
	}
	ctx := &bindCtx{x: d.m.x, st: st, recv: a, T: T}
	enums := map[string][]*Term{}
	for _, e := range r.PBody {
		if e.Kind == "if" && e.Cond.Kind == "eq" && !e.Cond.Neg {
			enums[e.Cond.Ref.Field] = append(enums[e.Cond.Ref.Field], ctx.cond(d.m.P, e.Cond))
		}
	}
	for f, cs := range enums {
		if !d.is(st, Or(cs...)) {
			return d.note("field %s of a %s has no spelling", f, r.Name)
		}
	}
	return d.elems(st, r.PBody, ctx, nil, pos, func(s *State, p *Term, used *usedF) bool {
		su := T.Underlying().(*types.Struct)
		c := ctx.with(s)
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			if isPosT(f.Type()) || used.has(f.Name()) {
				continue
			}
			v, ft := c.raw(gspec.Ref{Field: f.Name()})
			g := Eq(v, zero(ft))
			if v.Sort == SSeq {
				g = Eq(Len(v), Zero)
			}
			if !d.is(s, g) {
				return d.note("field %s of a %s is set to %s, which is not in the text", f.Name(), r.Name, v)
			}
		}
		return k(s, p)
	})
}

type elemK func(st *State, pos *Term, used *usedF) bool

func (d *deriver) elems(st *State, es []*gspec.Elem, ctx *bindCtx, used *usedF, pos *Term, k elemK) bool {
	if d.over() {
		return false
	}
	if len(es) == 0 {
		return k(st, pos, used)
	}
	m := d.m
	e := es[0]
	c := ctx.with(st)
	use := func(r gspec.Ref) {
		if c.elems != nil {
			if _, ok := c.elems[r.Field]; ok {
				return
			}
		}
		used = &usedF{r.Field, used}
	}
	next := func(s *State, p *Term) bool {
		return d.step(func() bool { return d.elems(s, es[1:], ctx, used, p, k) })
	}
	with := func(b []*gspec.Elem) []*gspec.Elem {
		return append(append([]*gspec.Elem{}, b...), es[1:]...)
	}
	switch e.Kind {
	case "lit":
		if !d.lit(st, e, pos) {
			return d.note("expected %s at %s", e.Lit, pos)
		}
		return next(st, Add(pos, One))
	case "child":
		use(e.Ref)
		t, T := c.get(e.Ref)
		n := t
		if !isIface(T) {
			n = Box(t, T)
		}
		return d.node(st, n, pos, next)
	case "term":
		use(e.Ref)
		t, _ := c.get(e.Ref)
		if !d.term(st, e.Term, t, pos) {
			return d.note("%s (.%s) is not the value of the token at %s", t, e.Ref.Field, pos)
		}
		return next(st, Add(pos, One))
	case "opt":
		return d.elems(st, es[1:], ctx, used, pos, k) || d.elems(st, with(e.Then), ctx, used, pos, k)
	case "alt":
		for _, a := range e.Alts {
			if d.elems(st, with(a), ctx, used, pos, k) {
				return true
			}
		}
		return false
	case "if":
		use(e.Cond.Ref)
		return d.split(st, c.cond(m.P, e.Cond), func(s *State) bool { return d.elems(s, with(e.Then), ctx, used, pos, k) },
			func(s *State) bool { return d.elems(s, with(e.Else), ctx, used, pos, k) })
	case "each":
		for _, r := range e.Refs {
			use(r)
		}
		if len(e.Refs) == 2 {
			s1, T1 := c.get(e.Refs[0])
			s2, T2 := c.get(e.Refs[1])
			return d.rows(st, e, s1, s2, T1, T2, pos, !e.Min1, next)
		}
		s, T := c.get(e.Refs[0])
		sep := m.sepTerm(e)
		if sep == nil {
			return d.note("list with separator %s", e.Sep)
		}
		return d.list(st, sep, s, T, pos, !e.Min1, next)
	case "any":
		var vs []*Term
		for _, f := range anyFields(e) {
			use(gspec.Ref{Field: f})
			v, _ := c.raw(gspec.Ref{Field: f})
			vs = append(vs, v)
		}
		return d.any(st, c.T, e, vs, pos, next)
	}
	return d.note("element kind %s", e.Kind)
}

func (d *deriver) lit(st *State, e *gspec.Elem, pos *Term) bool {
	m := d.m
	if e.Word {
		return d.is(st, Eq(keyOf(m.tok(st, pos)), Str(strings.ToUpper(e.Lit))))
	}
	k := m.kinds[punctKind[e.Lit]]
	return k != nil && d.is(st, Eq(m.kind(st, m.tok(st, pos)), k))
}

// term: the token at pos spells v.
func (d *deriver) term(st *State, kind string, v, pos *Term) bool {
	m := d.m
	t := m.tok(st, pos)
	isK := func(n string) bool { return d.is(st, Eq(m.kind(st, t), m.kinds[n])) }
	switch kind {
	case "id":
		return d.is(st, And(m.isWord(st, t), Eq(v, UF("wordstr", SStr, m.word(st, t)))))
	case "int":
		return isK("Number") && d.is(st, Eq(v, UF("atoi", SInt, m.strVal(st, t))))
	case "num":
		return isK("Number") && d.is(st, Eq(v, UF("parsefloat", SFloat, m.strVal(st, t))))
	case "str":
		return isK("SingleQuotedString") && d.is(st, Eq(v, m.strVal(st, t)))
	case "nstr":
		return isK("NationalStringLiteral") && d.is(st, Eq(v, m.strVal(st, t)))
	}
	return false
}

// nodeIn: element v of a list of type T.
func nodeIn(v *Term, T types.Type) *Term {
	if sl, ok := T.Underlying().(*types.Slice); ok && !isIface(sl.Elem()) && v.Op != "box" {
		return Box(v, sl.Elem())
	}
	return v
}

// list matches the tokens from pos on with the list s, separators between the elements.
func (d *deriver) list(st *State, sep, s *Term, T types.Type, pos *Term, empty bool, k posK) bool {
	if d.over() {
		return false
	}
	m := d.m
	if s.Op == "ite" {
		return d.split(st, s.A[0], func(t *State) bool { return d.list(t, sep, s.A[1], T, pos, empty, k) }, func(t *State) bool { return d.list(t, sep, s.A[2], T, pos, empty, k) })
	}
	if isEmptySeq(s) {
		if empty {
			return k(st, pos)
		}
		return d.note("a list is empty")
	}
	for _, f := range m.preds(st, "⊢L") {
		if f.A[0] == sep && f.A[1] == s && m.eqPos(st, f.A[2], pos) && d.step(func() bool { return k(st, f.A[3]) }) {
			return true
		}
	}
	for _, f := range m.preds(st, "⊢Z") {
		if f.A[0] == sep && f.A[1] == s && m.eqPos(st, f.A[2], pos) && (empty || d.is(st, Le(One, Len(s)))) && d.step(func() bool { return k(st, f.A[3]) }) {
			return true
		}
	}
	if last, rest := splitLast(s); last != nil {
		return d.listSep(st, sep, rest, T, pos, func(t *State, p *Term) bool { return d.node(t, nodeIn(last, T), p, k) })
	}
	if s.Op == "cat" && sep.Op == "int" && sep.I < 0 {
		base, tail := catTail(s)
		if !empty && !d.is(st, Le(One, Len(s))) {
			return d.note("a list may be empty")
		}
		return d.list(st, sep, base, T, pos, true, func(t *State, p *Term) bool { return d.list(t, sep, tail, T, p, true, k) })
	}
	if t, end := d.invert(st, sep, s, pos); t != nil {
		return d.step(func() bool { return k(t, end) })
	}
	return d.note("nothing is known of list %s at %s", s, pos)
}

func catTail(s *Term) (base, tail *Term) {
	base = s.A[0]
	for _, k := range s.A[1 : len(s.A)-1] {
		base = Cat(base, k)
	}
	return base, s.A[len(s.A)-1]
}

// listSep matches the list s, possibly empty, with a separator behind every element.
func (d *deriver) listSep(st *State, sep, s *Term, T types.Type, pos *Term, k posK) bool {
	m := d.m
	if isEmptySeq(s) {
		return k(st, pos)
	}
	for _, f := range m.preds(st, "⊢T") {
		if f.A[0] == sep && f.A[1] == s && m.eqPos(st, f.A[2], pos) && d.step(func() bool { return k(st, f.A[3]) }) {
			return true
		}
	}
	full := func(st *State) bool {
		return d.list(st, sep, s, T, pos, false, func(t *State, e *Term) bool { return d.sep(t, sep, e, k) })
	}
	if sep.Op == "int" && sep.I < 0 {
		return d.list(st, sep, s, T, pos, true, k)
	}
	if d.is(st, Le(One, Len(s))) {
		return full(st)
	}
	return d.split(st, Eq(Len(s), Zero), func(t *State) bool {
		for _, f := range m.preds(t, "⊢Z") {
			if f.A[1] == s {
				t.assume(Eq(f.A[2], f.A[3]))
			}
		}
		return k(t, pos)
	}, full)
}

func (d *deriver) sep(st *State, sep, p *Term, k posK) bool {
	at := func(kd *Term) bool {
		return d.is(st, And(Lt(p, d.m.M), Eq(d.m.kind(st, d.m.tok(st, p)), kd)))
	}
	switch {
	case sep.Op == "int" && sep.I < 0:
		return k(st, p)
	case sep.Op == "uf" && sep.S == "optsep":
		return at(sep.A[0]) && k(st, Add(p, One)) || k(st, p)
	}
	if !at(sep) {
		return d.note("no separator at %s", p)
	}
	return d.step(func() bool { return k(st, Add(p, One)) })
}

// invert: s is the list of a node that is known to derive tokens from pos on, and whose production
// is that list and some fixed tokens after it.
func (d *deriver) invert(st *State, sep, s, pos *Term) (*State, *Term) {
	m := d.m
	if s.Op != "fld" || len(s.A) == 0 || s.A[0].Op != "unbox" {
		return nil, nil
	}
	n := s.A[0].A[0]
	tn := strings.TrimPrefix(s.A[0].S, "*sqlast.")
	r := grammar(m.P).rules[tn]
	if r == nil || len(r.PBody) == 0 || r.PBody[0].Kind != "each" || len(r.PBody[0].Refs) != 1 || !strings.HasSuffix(s.S, "."+r.PBody[0].Refs[0].Field) {
		return nil, nil
	}
	for _, e := range r.PBody[1:] {
		if e.Kind != "lit" {
			return nil, nil
		}
	}
	if m.sepTerm(r.PBody[0]) != sep || s.A[0].T == nil || !d.is(st, IsType(n, s.A[0].S, s.A[0].T)) {
		return nil, nil
	}
	for _, f := range m.preds(st, "⊢N") {
		if f.A[0] != n || !m.eqPos(st, f.A[1], pos) {
			continue
		}
		t := st.clone()
		w := int64(len(r.PBody) - 1)
		end := Sub(f.A[2], Int(w))
		t.assume(Lt(f.A[1], end))
		for i, e := range r.PBody[1:] {
			p := Add(end, Int(int64(i)))
			if e.Word {
				t.assume(Eq(keyOf(m.tok(t, p)), Str(strings.ToUpper(e.Lit))))
			} else {
				t.assume(Eq(m.kind(t, m.tok(t, p)), m.kinds[punctKind[e.Lit]]))
			}
		}
		return t, end
	}
	return nil, nil
}

// ---------- rows ----------

func dR(name string, s1, s2, a, b *Term) *Term { return UF("⊢R", SBool, Str(name), s1, s2, a, b) }

// rowName identifies the rows element by its fields.
func rowName(e *gspec.Elem) string { return e.Refs[0].Field + "/" + e.Refs[1].Field }

func (d *deriver) rows(st *State, e *gspec.Elem, s1, s2 *Term, T1, T2 types.Type, pos *Term, empty bool, k posK) bool {
	if d.over() {
		return false
	}
	m := d.m
	if isEmptySeq(s1) && isEmptySeq(s2) {
		if empty {
			return k(st, pos)
		}
		return d.note("rows are empty")
	}
	name := Str(rowName(e))
	for _, f := range m.preds(st, "⊢R") {
		if f.A[0] == name && f.A[1] == s1 && f.A[2] == s2 && m.eqPos(st, f.A[3], pos) && (empty || d.is(st, Le(One, Len(s1)))) && d.step(func() bool { return k(st, f.A[4]) }) {
			return true
		}
	}
	l1, r1 := splitLast(s1)
	l2, r2 := splitLast(s2)
	if l1 == nil || l2 == nil {
		return d.note("nothing is known of rows %s, %s at %s", s1, s2, pos)
	}
	return d.rows(st, e, r1, r2, T1, T2, pos, true, func(t *State, p *Term) bool {
		ctx := &bindCtx{x: m.x, st: t, elems: map[string]elemBind{"1": {l1, T1.Underlying().(*types.Slice).Elem()}, "2": {l2, T2.Underlying().(*types.Slice).Elem()}}}
		return d.elems(t, e.Then, ctx, nil, p, func(u *State, q *Term, _ *usedF) bool { return k(u, q) })
	})
}

// ---------- parts in any order ----------

// anyFields: the fields of an any-order element, one per part.
func anyFields(e *gspec.Elem) []string {
	var out []string
	for _, a := range e.Alts {
		switch a[0].Kind {
		case "if":
			out = append(out, a[0].Cond.Ref.Field)
		case "each":
			out = append(out, a[0].Refs[0].Field)
		}
	}
	return out
}

func dA(T types.Type, vs []*Term, a, b *Term) *Term {
	return UF("⊢A", SBool, append(append([]*Term{Str(tstr(T))}, vs...), a, b)...)
}

// since: the pieces by which list s is longer than base.
func since(s, base *Term) ([]*Term, bool) {
	if s == base || isEmptySeq(s) && isEmptySeq(base) {
		return nil, true
	}
	if last, rest := splitLast(s); last != nil {
		ps, ok := since(rest, base)
		return append(ps, Seq(last)), ok
	}
	if s.Op == "cat" {
		b, tail := catTail(s)
		ps, ok := since(b, base)
		return append(ps, tail), ok
	}
	if isEmptySeq(base) {
		return []*Term{s}, true
	}
	return nil, false
}

func (d *deriver) any(st *State, T types.Type, e *gspec.Elem, vs []*Term, pos *Term, k posK) bool {
	m := d.m
	n := len(vs)
	type base struct {
		vs  []*Term
		end *Term
	}
	var bases []base
	for _, f := range m.preds(st, "⊢A") {
		if len(f.A) == n+3 && f.A[0] == Str(tstr(T)) && m.eqPos(st, f.A[n+1], pos) {
			bases = append(bases, base{f.A[1 : n+1], f.A[n+2]})
		}
	}
	su := T.Underlying().(*types.Struct)
	fs := anyFields(e)
	fT := map[string]types.Type{}
	for i := 0; i < su.NumFields(); i++ {
		fT[su.Field(i).Name()] = su.Field(i).Type()
	}
	var zs []*Term
	for _, f := range fs {
		zs = append(zs, zero(fT[f]))
	}
	bases = append(bases, base{zs, pos})
	for _, b := range bases {
		todo := make([][]*Term, n)
		ok := true
		for i, v := range vs {
			if v == b.vs[i] {
				continue
			}
			if v.Sort == SSeq {
				ps, o := since(v, b.vs[i])
				todo[i], ok = ps, ok && o
			} else if !d.is(st, Eq(b.vs[i], Nil)) {
				ok = false
			} else if !d.is(st, Eq(v, Nil)) {
				todo[i] = []*Term{v}
			}
		}
		if !ok {
			continue
		}
		var rec func(st *State, todo [][]*Term, p *Term) bool
		rec = func(st *State, todo [][]*Term, p *Term) bool {
			if d.over() {
				return false
			}
			left := false
			for i, ps := range todo {
				if len(ps) == 0 {
					continue
				}
				left = true
				nt := append([][]*Term{}, todo...)
				nt[i] = ps[1:]
				cont := func(s *State, q *Term) bool { return d.step(func() bool { return rec(s, nt, q) }) }
				el := e.Alts[i][0]
				if el.Kind == "each" {
					if d.list(st, m.sepTerm(el), ps[0], fT[fs[i]], p, true, cont) {
						return true
					}
					continue
				}
				ctx := &bindCtx{x: m.x, st: st, elems: map[string]elemBind{fs[i]: {ps[0], fT[fs[i]]}}}
				if d.elems(st, el.Then, ctx, nil, p, func(s *State, q *Term, _ *usedF) bool { return cont(s, q) }) {
					return true
				}
			}
			return !left && k(st, p)
		}
		if rec(st, todo, b.end) {
			return true
		}
	}
	return d.note("parts %v of a %s at %s", vs, tstr(T), pos)
}

// ---------- predicates ----------

func (m *parseModel) provePred2(st *State, g *Term) bool {
	if st.pcs[g] {
		return true
	}
	d := m.deriver()
	d.hide = true
	until := func(b *Term) posK { return func(s *State, p *Term) bool { return m.eqPos(s, p, b) } }
	switch g.S {
	case "⊢N":
		return d.node(st, g.A[0], g.A[1], until(g.A[2]))
	case "⊢L", "⊢Z":
		return d.list(st, g.A[0], g.A[1], m.seqT(g.A[1]), g.A[2], g.S == "⊢Z", until(g.A[3]))
	case "⊢T":
		return d.listSep(st, g.A[0], g.A[1], m.seqT(g.A[1]), g.A[2], until(g.A[3]))
	case "⊢R":
		if e := m.rowElem(g.A[0].S); e != nil {
			return d.rows(st, e.e, g.A[1], g.A[2], e.T1, e.T2, g.A[3], true, until(g.A[4]))
		}
	case "⊢A":
		for _, a := range m.anyElems() {
			if tstr(a.T) == g.A[0].S {
				n := len(g.A) - 3
				return d.any(st, a.T, a.e, g.A[1:n+1], g.A[n+1], until(g.A[n+2]))
			}
		}
	}
	return false
}

// seqT: the type of list s (nodes of pointer type are boxed by node in any case).
func (m *parseModel) seqT(s *Term) types.Type {
	if s.T != nil {
		if _, ok := s.T.Underlying().(*types.Slice); ok {
			return s.T
		}
	}
	return types.NewSlice(types.NewInterfaceType(nil, nil))
}

type rowInfo struct {
	e      *gspec.Elem
	T1, T2 types.Type
}

type anyInfo struct {
	e *gspec.Elem
	T types.Type
}

// ruleTypes: the struct types that have a production, by name.
func (m *parseModel) ruleTypes(f func(r *gRule, T types.Type)) {
	g := grammar(m.P)
	for _, n := range g.Names {
		if tp := m.P.pkgs["sqlast"].Type(n); tp != nil && !g.rules[n].Flags["noparse"] {
			if _, ok := tp.Type().Underlying().(*types.Struct); ok {
				f(g.rules[n], tp.Type())
			}
		}
	}
}

func walkElems(es []*gspec.Elem, f func(e *gspec.Elem)) {
	for _, e := range es {
		f(e)
		walkElems(e.Then, f)
		walkElems(e.Else, f)
		for _, a := range e.Alts {
			walkElems(a, f)
		}
	}
}

func fieldTypeOf(T types.Type, name string) types.Type {
	if i, ft := structFieldOpt(T, name); i >= 0 {
		return ft
	}
	return nil
}

func (m *parseModel) rowElems() []rowInfo {
	var out []rowInfo
	m.ruleTypes(func(r *gRule, T types.Type) {
		walkElems(r.PBody, func(e *gspec.Elem) {
			if e.Kind == "each" && len(e.Refs) == 2 {
				out = append(out, rowInfo{e, fieldTypeOf(T, e.Refs[0].Field), fieldTypeOf(T, e.Refs[1].Field)})
			}
		})
	})
	return out
}

func (m *parseModel) rowElem(name string) *rowInfo {
	for _, r := range m.rowElems() {
		if rowName(r.e) == name {
			return &r
		}
	}
	return nil
}

func (m *parseModel) anyElems() []anyInfo {
	var out []anyInfo
	m.ruleTypes(func(r *gRule, T types.Type) {
		for _, e := range r.PBody {
			if e.Kind == "any" {
				out = append(out, anyInfo{e, T})
			}
		}
	})
	return out
}

// seps: the separators of the lists of type T in the grammar.
func (m *parseModel) seps(T types.Type) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	m.ruleTypes(func(r *gRule, ST types.Type) {
		walkElems(r.PBody, func(e *gspec.Elem) {
			if e.Kind != "each" || len(e.Refs) != 1 {
				return
			}
			if ft := fieldTypeOf(ST, e.Refs[0].Field); ft != nil && types.Identical(ft, T) {
				if s := m.sepTerm(e); s != nil && !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		})
	})
	for i, p := range m.self.Params {
		if i > 0 && tstr(p.Type()) == "sqltoken.Kind" {
			out = append(out, m.args[i-1])
		}
	}
	return out
}

// derivFacts: what the contract of k says about the derivation of its result.
func (m *parseModel) derivFacts(st *State, k *pContract, res, c, end *Term, args []*Term) {
	if k.list {
		st.assume(dL(m.sepOf(k, args), res, c, end))
		return
	}
	st.assume(dN(m.node(asNodeOf(res, k.T)), c, end))
}

// derivCands: candidate invariants.
func (m *parseModel) derivCands(lc *LoopCtx, c, centry *Term) []*Term {
	var out []*Term
	anchors := []*Term{m.c0}
	seenA := map[*Term]bool{m.c0: true}
	addA := func(a *Term) {
		if !seenA[a] {
			seenA[a] = true
			anchors = append(anchors, a)
		}
	}
	addA(centry)
	for _, g := range lc.st0.gh {
		switch {
		case g.Op != "uf":
		case g.S == "⊢N":
			addA(g.A[1])
		case g.S == "⊢L" || g.S == "⊢Z" || g.S == "⊢T":
			addA(g.A[2])
		}
	}
	var bools []*Term
	var seqs []*Term
	add := func(p *Term) {
		out = append(out, p)
		for _, b := range bools {
			out = append(out, Or(b, p), Or(Not(b), p))
		}
	}
	for _, s := range lc.vars {
		if s.Op == "sym" && s != lc.entry[s] && s.Sort == SBool {
			bools = append(bools, s)
		}
	}
	for _, s := range lc.vars {
		if s.Op != "sym" || s == lc.entry[s] || s.T == nil {
			continue
		}
		switch s.Sort {
		case SSeq:
			if _, ok := s.T.Underlying().(*types.Slice); !ok {
				break
			}
			seqs = append(seqs, s)
			for _, sep := range m.seps(s.T) {
				for _, a := range anchors {
					for _, p := range []*Term{dL(sep, s, a, c), dT(sep, s, a, c), dZ(sep, s, a, c)} {
						add(p)
					}
				}
			}
		case SRef:
			if !m.nodeType(s.T) {
				break
			}
			for _, a := range anchors {
				add(dN(asNodeOf(s, s.T), a, c))
			}
		}
	}
	for _, r := range m.rowElems() {
		for _, s1 := range seqs {
			for _, s2 := range seqs {
				if s1 == s2 || !types.Identical(s1.T, r.T1) || !types.Identical(s2.T, r.T2) {
					continue
				}
				for _, a := range anchors {
					for i := int64(0); i < 3; i++ {
						aa := Sub(a, Int(i))
						add(dR(rowName(r.e), s1, s2, aa, c))
						add(dR(rowName(r.e), s1, s2, aa, Sub(c, One)))
					}
				}
				if f := r.e.Then[0]; f.Kind == "lit" && f.Word {
					add(Eq(keyOf(mk("uf", SRef, "S", 0, types.NewPointer(m.tokT), Sub(c, One))), Str(strings.ToUpper(f.Lit))))
				}
			}
		}
	}
	for _, ai := range m.anyElems() {
		var vs []*Term
		n := 0
		for _, f := range anyFields(ai.e) {
			ft := fieldTypeOf(ai.T, f)
			var v *Term
			for _, s := range lc.vars {
				if s.Op == "sym" && s != lc.entry[s] && s.T != nil && types.Identical(s.T, ft) && v == nil {
					v = s
					n++
				}
			}
			if v == nil {
				v = zero(ft)
			}
			vs = append(vs, v)
		}
		if n > 0 {
			for _, a := range anchors {
				out = append(out, dA(ai.T, vs, a, c))
			}
		}
	}
	return out
}

// nodeType: values of type T are nodes.
func (m *parseModel) nodeType(T types.Type) bool {
	if isIface(T) {
		n, ok := m.P.pkgs["sqlast"].Type("Node").Type().Underlying().(*types.Interface)
		if !ok {
			return false
		}
		return !isErrT(T) && types.Implements(T, n)
	}
	p, ok := T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := tstr(p.Elem())
	return strings.HasPrefix(s, "sqlast.") && grammar(m.P).rules[s[7:]] != nil
}

// derivStore: a node behind a predicate is not changed any more.
func (m *parseModel) derivStore(fr *Frame, st *State, addr, val *Term) {
	if m.x.mute > 0 || !m.deriv || addr.Op != "addr.f" {
		return
	}
	if p, ok := addr.T.Underlying().(*types.Pointer); ok && isPosT(p.Elem()) {
		return
	}
	if r := root(addr); m.hidden[r] {
		m.x.Ob(fname(m.x.top), "derivation", "a node is complete once the loop of "+fname(fr.fn)+" has taken it in", false, addr.String(), 0)
	}
}

// derivExit: the result derives exactly the tokens consumed.
func (m *parseModel) derivExit(k *pContract, st *State, res, c *Term) {
	d := m.deriver()
	until := func(s *State, p *Term) bool {
		if m.eqPos(s, p, c) {
			return true
		}
		return d.note("the node ends at %s, the tokens consumed at %s", p, c)
	}
	ok := false
	if k.list {
		ok = d.list(st, m.sepOf(k, m.args), res, k.T, m.c0, false, until)
	} else {
		ok = d.node(st, asNodeOf(res, k.T), m.c0, until)
	}
	why := ""
	if !ok {
		why = d.fail + pathStr(st) + ghStr(st)
	}
	m.x.Ob(fname(k.fn), "derivation", "the result of "+k.name+" is a derivation of exactly the tokens consumed", ok, why, k.fn.Pos())
}

var _ = sort.Strings
