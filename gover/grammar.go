package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gspec"
)

type Grammar struct {
	*gspec.Grammar
	rules map[string]*gRule
}

type gRule struct{ *gspec.Rule }

var theGrammar *Grammar

func grammar(P *Program) *Grammar {
	if theGrammar != nil {
		return theGrammar
	}
	g := &Grammar{Grammar: gspec.Load(filepath.Join(verifDir(), "contracts", "grammar.spec")), rules: map[string]*gRule{}}
	for n, r := range g.Rules {
		g.rules[n] = &gRule{r}
	}
	theGrammar = g
	return g
}

// bindCtx resolves field references of a rule to terms in a state.
type bindCtx struct {
	x     *Exec
	st    *State
	recv  *Term      // pointer to the node struct
	T     types.Type // struct type
	elems map[string]elemBind
	up    *bindCtx
}

type elemBind struct {
	t *Term
	T types.Type
}

func (c *bindCtx) with(st *State) *bindCtx {
	n := *c
	n.st = st
	return &n
}

func (c *bindCtx) raw(r gspec.Ref) (*Term, types.Type) {
	if c.elems != nil {
		if e, ok := c.elems[r.Field]; ok {
			return e.t, e.T
		}
	}
	s := c.T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == r.Field {
			ft := s.Field(i).Type()
			return c.x.load(c.st, fieldAddr(c.recv, c.T, i), ft), ft
		}
	}
	fatalf("grammar: %s has no field %s", tstr(c.T), r.Field)
	return nil, nil
}

func (c *bindCtx) get(r gspec.Ref) (*Term, types.Type) {
	t, T := c.raw(r)
	if r.Deref {
		et := T.Underlying().(*types.Pointer).Elem()
		return c.x.load(c.st, t, et), et
	}
	return t, T
}

func (c *bindCtx) cond(P *Program, cd gspec.Cond) *Term {
	t, _ := c.get(cd.Ref)
	var r *Term
	switch cd.Kind {
	case "bool":
		r = t
	case "nn":
		r = Not(Eq(t, Nil))
	case "len":
		r = Le(One, Len(t))
	case "eq":
		r = Eq(t, enumConst(P, cd.Const))
	}
	if cd.Neg {
		return Not(r)
	}
	return r
}

func enumConst(P *Program, name string) *Term {
	for _, pk := range []string{"sqlast"} {
		if m, ok := P.pkgs[pk].Members[name].(*ssa.NamedConst); ok {
			if i, ok := constant.Int64Val(m.Value.Value); ok {
				return Int(i)
			}
		}
	}
	fatalf("grammar: unknown constant %s", name)
	return nil
}

// wf: well-formedness facts implied by the rule.
func (r *gRule) wf(P *Program, c *bindCtx) []*Term {
	var out []*Term
	var rec func(es []*gspec.Elem, guard []*Term)
	rec = func(es []*gspec.Elem, guard []*Term) {
		enums := map[string][]*Term{}
		for _, e := range es {
			imp := func(t *Term) { out = append(out, Implies(And(guard...), t)) }
			switch e.Kind {
			case "child":
				if _, ok := c.elems[e.Ref.Field]; ok {
					continue
				}
				if e.Ref.Field == "1" || e.Ref.Field == "2" {
					continue
				}
				t, _ := c.get(e.Ref)
				imp(Not(Eq(t, Nil)))
			case "term":
				if e.Ref.Deref && e.Ref.Field != "1" {
					t, _ := c.raw(e.Ref)
					imp(Not(Eq(t, Nil)))
				}
			case "each":
				t, _ := c.get(e.Refs[0])
				if e.Min1 {
					imp(Le(One, Len(t)))
				}
				if len(e.Refs) > 1 {
					u, _ := c.get(e.Refs[1])
					imp(Eq(Len(t), Len(u)))
				}
			case "if":
				if e.Cond.Ref.Field == "1" {
					continue
				}
				cd := c.cond(P, e.Cond)
				if e.Cond.Kind == "eq" {
					enums[e.Cond.Ref.Field] = append(enums[e.Cond.Ref.Field], cd)
				}
				if e.Cond.Ref.Deref {
					t, _ := c.raw(e.Cond.Ref)
					imp(Not(Eq(t, Nil)))
				}
				rec(e.Then, append(append([]*Term(nil), guard...), cd))
				rec(e.Else, append(append([]*Term(nil), guard...), Not(cd)))
			case "alt":
				for _, a := range e.Alts {
					rec(a, guard)
				}
			case "opt":
				rec(e.Then, guard)
			}
		}
		for _, v := range enums {
			out = append(out, Implies(And(guard...), Or(v...)))
		}
	}
	rec(r.Body, nil)
	return out
}

// listFields: names of the list fields of the rule
func (r *gRule) listFields() map[string]bool {
	out := map[string]bool{}
	var rec func(es []*gspec.Elem)
	rec = func(es []*gspec.Elem) {
		for _, e := range es {
			switch e.Kind {
			case "each":
				for _, f := range e.Refs {
					child := false
					for _, b := range e.Then {
						if b.Kind == "child" {
							child = true
						}
					}
					if child {
						out[f.Field] = true
					}
				}
			case "if":
				rec(e.Then)
				rec(e.Else)
			case "alt":
				for _, a := range e.Alts {
					rec(a)
				}
			case "opt":
				rec(e.Then)
			}
		}
	}
	rec(r.Body)
	return out
}

// ---------- lexing of symbolic text ----------

type item struct {
	kind  string // lit node term str nstr rep
	lit   string
	t     *Term
	glued bool // no whitespace between this item and the previous one
}

func (it item) String() string {
	g := ""
	if it.glued {
		g = "~"
	}
	switch it.kind {
	case "lit":
		return g + it.lit
	case "str":
		return g + "'" + it.t.String() + "'"
	}
	return g + "<" + it.t.String() + ">"
}

func itemsStr(xs []item) string {
	var ss []string
	for _, x := range xs {
		ss = append(ss, x.String())
	}
	return strings.Join(ss, " ")
}

func pieces(t *Term) []*Term {
	if t.Op == "scat" {
		return t.A
	}
	if t.Op == "str" && t.S == "" {
		return nil
	}
	return []*Term{t}
}

func isWordCh(c byte) bool {
	return c == '_' || c == '@' || c == '$' || c == '#' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// lexText splits symbolic text into items.
func lexText(t *Term, raw bool) ([]item, string) {
	ps := pieces(t)
	var out []item
	glued := true
	add := func(it item) {
		it.glued = glued
		glued = true
		out = append(out, it)
	}
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		if p.Op != "str" {
			switch {
			case p.Op == "rep":
				add(item{kind: "rep", t: p})
			case p.Op == "uf" && p.S == "text":
				add(item{kind: "node", t: p.A[0]})
			default:
				add(item{kind: "term", t: p})
			}
			continue
		}
		s := p.S
		for j := 0; j < len(s); {
			c := s[j]
			switch {
			case c == ' ' || !raw && (c == '\n' || c == '\t' || c == '\r'):
				glued = false
				j++
			case raw && (c == '\n' || c == '\t'):
				glued = false
				add(item{kind: "lit", lit: string(c)})
				glued = false
				j++
			case c == '\'' && !raw:
				// string literal: runs to the next quote, possibly in a later piece
				kind := "str"
				if n := len(out); n > 0 && out[n-1].kind == "lit" && (out[n-1].lit == "N" || out[n-1].lit == "n") && glued {
					kind = "nstr"
					glued = out[n-1].glued
					out = out[:n-1]
				}
				var body []*Term
				j++
				done := false
				for {
					k := strings.IndexByte(s[j:], '\'')
					if k >= 0 {
						body = append(body, Str(s[j:j+k]))
						j += k + 1
						done = true
						break
					}
					body = append(body, Str(s[j:]))
					for i++; i < len(ps) && ps[i].Op != "str"; i++ {
						if ps[i].Op == "rep" {
							return nil, "loop output inside a string literal"
						}
						body = append(body, ps[i])
					}
					if i >= len(ps) {
						break
					}
					s = ps[i].S
					j = 0
				}
				if !done {
					return nil, "unterminated string literal"
				}
				add(item{kind: kind, t: SCat(body...)})
			case isWordCh(c):
				k := j
				for k < len(s) && isWordCh(s[k]) {
					k++
				}
				add(item{kind: "lit", lit: s[j:k]})
				j = k
			default:
				if raw && c == '\\' && j+1 < len(s) {
					add(item{kind: "lit", lit: s[j : j+2]})
					j += 2
					break
				}
				n := 1
				for _, op := range []string{"::", "!=", "<>", "<=", ">=", "--", "/*", "||"} {
					if strings.HasPrefix(s[j:], op) {
						n = 2
					}
				}
				if s[j:j+n] == "--" || s[j:j+n] == "/*" {
					return nil, "the text starts a comment"
				}
				add(item{kind: "lit", lit: s[j : j+n]})
				j += n
			}
		}
	}
	return out, ""
}

// edge class of an item: 'w' word-like, '?' unknown, ' ' whitespace, else the punctuation character
func (g *matcher) edge(it item, right bool) byte {
	switch it.kind {
	case "lit":
		c := it.lit[0]
		if right {
			c = it.lit[len(it.lit)-1]
		}
		if c == '\n' || c == '\t' {
			return ' '
		}
		if isWordCh(c) {
			return 'w'
		}
		return c
	case "str":
		return '\''
	case "nstr":
		if right {
			return '\''
		}
		return 'w'
	case "node":
		if it.t.Op == "box" {
			n := strings.TrimPrefix(tstr(it.t.T), "*sqlast.")
			if right && g.edges[n].endsWS || !right && g.edges[n].startsWS {
				return ' '
			}
			if n == "Ident" || n == "ObjectName" || n == "CompoundIdent" {
				return 'w'
			}
		}
	case "term":
		return 'w'
	}
	return '?'
}

type edgeFact struct{ startsWS, endsWS, mayEmpty bool }

func glueSafe(l, r byte) bool {
	safe := func(c byte) bool { return strings.IndexByte("(),;[].= ", c) >= 0 }
	if safe(l) || safe(r) {
		if l == '=' && strings.IndexByte("<>!=", r) >= 0 || r == '=' && strings.IndexByte("<>!=:", l) >= 0 {
			return false
		}
		return true
	}
	if l == 'w' && r == 'w' || l == '?' || r == '?' {
		return false
	}
	if l == '\'' && r == '\'' || l == 'w' && r == '\'' {
		return false
	}
	if l == 'w' || r == 'w' || l == '\'' || r == '\'' {
		return true
	}
	return false
}

// ---------- matching symbolic text against a rule ----------

type celem struct {
	e   *gspec.Elem
	ctx *bindCtx
}

type matcher struct {
	P     *Program
	x     *Exec
	g     *Grammar
	edges map[string]edgeFact
	raw   bool
	fail  string // deepest failure
	best  int
	steps int
}

func (m *matcher) note(pos int, f string, a ...interface{}) bool {
	if pos >= m.best {
		m.best = pos
		m.fail = fmt.Sprintf(f, a...)
	}
	return false
}

func celems(es []*gspec.Elem, c *bindCtx) []celem {
	var out []celem
	for _, e := range es {
		out = append(out, celem{e, c})
	}
	return out
}

func (m *matcher) match(st *State, items []item, pos int, es []celem) bool {
	m.steps++
	if m.steps > 200000 {
		return m.note(1<<30, "matching budget exceeded")
	}
	if len(es) == 0 {
		if pos == len(items) {
			return true
		}
		if items[pos].kind == "rep" && m.repEmpty(st, items[pos].t) {
			return m.match(st, items, pos+1, es)
		}
		return m.note(pos, "extra text %s", itemsStr(items[pos:]))
	}
	e, ctx := es[0].e, es[0].ctx.with(st)
	rest := es[1:]
	if pos < len(items) && items[pos].kind == "rep" && e.Kind != "each" && e.Kind != "if" && m.repEmpty(st, items[pos].t) {
		return m.match(st, items, pos+1, es)
	}
	switch e.Kind {
	case "lit":
		if pos < len(items) && items[pos].kind == "lit" && strings.EqualFold(items[pos].lit, e.Lit) {
			return m.match(st, items, pos+1, rest)
		}
		return m.note(pos, "expected %s, text has %s", e.Lit, at(items, pos))
	case "child":
		t, T := ctx.get(e.Ref)
		node := t
		if !isIface(T) {
			node = Box(t, T)
		}
		if pos < len(items) {
			it := items[pos]
			if it.kind == "node" && (it.t == node || m.x.Prove(st, Eq(it.t, node))) {
				return m.match(st, items, pos+1, rest)
			}
		}
		if !isIface(T) {
			// unfold the child's own rule
			n := strings.TrimPrefix(tstr(T), "*sqlast.")
			if r := m.g.rules[n]; r != nil && nestedDepth(es[0].ctx) < 3 {
				sub := &bindCtx{x: m.x, st: st, recv: t, T: T.Underlying().(*types.Pointer).Elem(), up: es[0].ctx}
				nst := st.clone()
				for _, f := range r.wf(m.P, sub) {
					nst.assume(f)
				}
				if m.match(nst, items, pos, append(celems(r.Body, sub), rest...)) {
					return true
				}
			}
		}
		return m.note(pos, "expected child .%s, text has %s", e.Ref.Field, at(items, pos))
	case "term":
		return m.term(st, items, pos, e, ctx, rest)
	case "opt":
		return m.match(st, items, pos, rest) || m.match(st, items, pos, append(celems(e.Then, es[0].ctx), rest...))
	case "alt":
		for _, a := range e.Alts {
			if m.match(st, items, pos, append(celems(a, es[0].ctx), rest...)) {
				return true
			}
		}
		return false
	case "if":
		c := ctx.cond(m.P, e.Cond)
		th := append(celems(e.Then, es[0].ctx), rest...)
		el := append(celems(e.Else, es[0].ctx), rest...)
		return m.split(st, c, func(s *State) bool { return m.match(s, items, pos, th) }, func(s *State) bool { return m.match(s, items, pos, el) })
	case "each":
		return m.each(st, items, pos, es[0], Zero, rest, 0)
	}
	fatalf("grammar: element kind %s", e.Kind)
	return false
}

func nestedDepth(c *bindCtx) int {
	n := 0
	for ; c != nil; c = c.up {
		n++
	}
	return n
}

func at(items []item, pos int) string {
	if pos < len(items) {
		return items[pos].String()
	}
	return "nothing more"
}

func (m *matcher) split(st *State, c *Term, yes, no func(*State) bool) bool {
	if m.x.Prove(st, c) {
		return yes(st)
	}
	if m.x.Prove(st, Not(c)) {
		return no(st)
	}
	a, b := st.clone(), st.clone()
	a.assume(c)
	b.assume(Not(c))
	return yes(a) && no(b)
}

func (m *matcher) repEmpty(st *State, r *Term) bool {
	return m.x.Prove(st, Le(r.A[1], r.A[0]))
}

func (m *matcher) each(st *State, items []item, pos int, ce celem, p *Term, rest []celem, n int) bool {
	ctx := ce.ctx.with(st)
	l, _ := ctx.get(ce.e.Refs[0])
	ln := Len(l)
	if n > 6 {
		return m.note(pos, "list .%s is not printed by a recognised loop", ce.e.Refs[0].Field)
	}
	return m.split(st, Eq(p, ln), func(s *State) bool {
		return m.match(s, items, pos, rest)
	}, func(s *State) bool {
		if pos < len(items) && items[pos].kind == "rep" {
			r := items[pos].t
			if m.repEmpty(s, r) {
				return m.each(s, items, pos+1, ce, p, rest, n+1)
			}
			ok := false
			for _, style := range []string{"pre", "post"} {
				if m.repMatch(s, r, ce, p, ln, style) {
					ok = true
					break
				}
			}
			if !ok {
				return m.note(pos, "loop over .%s: %s", ce.e.Refs[0].Field, m.fail)
			}
			return m.each(s, items, pos+1, ce, Add(p, Sub(r.A[1], r.A[0])), rest, n+1)
		}
		if !m.x.Prove(s, Lt(p, ln)) {
			return m.note(pos, "list .%s is not printed to its end", ce.e.Refs[0].Field)
		}
		var body []celem
		if ce.e.Sep != "" && !m.x.Prove(s, Eq(p, Zero)) {
			body = append(body, celem{&gspec.Elem{Kind: "lit", Lit: ce.e.Sep}, ce.ctx})
		}
		body = append(body, celems(ce.e.Then, ce.bind(ctx, p))...)
		// continue the list after the body: encoded as a resumed each
		body = append(body, celem{&gspec.Elem{Kind: "resume"}, nil})
		_ = body
		// match the body prefix, then continue
		for q := pos; q <= len(items); q++ {
			save, sb := m.fail, m.best
			if m.match(s, items[:q], pos, body[:len(body)-1]) {
				if m.each(s, items, q, ce, Add(p, One), rest, n+1) {
					return true
				}
			} else if q < len(items) {
				m.fail, m.best = save, sb
			}
		}
		return false
	})
}

func (ce celem) bind(ctx *bindCtx, idx *Term) *bindCtx {
	n := *ctx
	n.elems = map[string]elemBind{}
	for i, r := range ce.e.Refs {
		l, T := ctx.get(r)
		et := T.Underlying().(*types.Slice).Elem()
		n.elems[fmt.Sprint(i+1)] = elemBind{At(l, idx, sortOf(et), et), et}
	}
	return &n
}

func (m *matcher) repMatch(st *State, r *Term, ce celem, p, ln *Term, style string) bool {
	info := reps[r.S]
	iv := info.ivar
	idx := Add(Sub(iv, r.A[0]), p)
	for _, alt := range info.alts {
		s := st.clone()
		s.assume(Le(r.A[0], iv))
		s.assume(Lt(iv, r.A[1]))
		for _, c := range alt.conds {
			s.assume(c)
		}
		if !m.x.feasible(s, True) || !m.x.sol.Feasible(s.pc, True) {
			continue
		}
		items, why := lexText(alt.delta, m.raw)
		if why != "" {
			return m.note(0, "%s", why)
		}
		sep := celem{&gspec.Elem{Kind: "lit", Lit: ce.e.Sep}, ce.ctx}
		body := celems(ce.e.Then, ce.bind(ce.ctx.with(s), idx))
		c := Eq(idx, Zero)
		with := append([]celem{sep}, body...)
		if style == "post" {
			c = Eq(idx, Sub(ln, One))
			with = append(append([]celem(nil), body...), sep)
		}
		if ce.e.Sep == "" {
			with = body
		}
		run := func(b []celem) func(*State) bool {
			return func(s2 *State) bool {
				if !m.x.sol.Feasible(s2.pc, True) {
					return true
				}
				return m.match(s2, items, 0, b)
			}
		}
		if !m.split(s, c, run(body), run(with)) {
			return false
		}
	}
	return true
}

func (m *matcher) term(st *State, items []item, pos int, e *gspec.Elem, ctx *bindCtx, rest []celem) bool {
	v, _ := ctx.get(e.Ref)
	if pos >= len(items) {
		return m.note(pos, "expected %s of .%s, text ends", e.Term, e.Ref.Field)
	}
	it := items[pos]
	same := func(a, b *Term) bool { return a == b || m.x.Prove(st, Eq(a, b)) }
	switch e.Term {
	case "id", "raw":
		if it.kind == "term" && same(it.t, v) {
			return m.match(st, items, pos+1, rest)
		}
	case "int":
		if it.kind == "term" && it.t.Op == "uf" && it.t.S == "itoa" && same(it.t.A[0], v) {
			return m.match(st, items, pos+1, rest)
		}
	case "str", "nstr":
		if it.kind == e.Term && it.t == UF("strings.ReplaceAll", SStr, v, Str("'"), Str("''")) {
			return m.match(st, items, pos+1, rest)
		}
	case "date", "time", "datetime":
		lay := map[string]string{"date": "2006-01-02", "time": "15:04:05", "datetime": "2006-01-02 15:04:05"}[e.Term]
		if it.kind == "term" && it.t == UF("timefmt", SStr, v, Str(lay)) {
			return m.match(st, items, pos+1, rest)
		}
	case "num":
		f := UF("ffloat", SStr, v)
		if it.kind == "term" && it.t == f {
			hasDot := containsDot(f)
			if pos+2 < len(items)+0 && items[pos+1].kind == "lit" && items[pos+1].lit == "." && items[pos+1].glued && items[pos+2].lit == "0" && items[pos+2].glued {
				if m.x.Prove(st, Not(hasDot)) {
					return m.match(st, items, pos+3, rest)
				}
			}
			if m.x.Prove(st, hasDot) {
				return m.match(st, items, pos+1, rest)
			}
			return m.note(pos, "a float may be printed without a fractional part (it would read back as an integer)")
		}
	}
	return m.note(pos, "expected %s of .%s, text has %s", e.Term, e.Ref.Field, it.String())
}

func containsDot(f *Term) *Term { return UF("contains", SBool, f, Str(".")) }

// ---------- adjacency ----------

// checkGlue: no two adjacent items run together. Returns "" if safe.
func (m *matcher) checkGlue(st *State, items []item) string {
	first := func(it item) []item { return []item{it} }
	var firsts, lasts func(it item) []item
	firsts = func(it item) []item {
		if it.kind != "rep" {
			return first(it)
		}
		return nil
	}
	lasts = firsts
	_ = lasts
	var prev []item // possible last items before the current one
	for i, it := range items {
		if it.kind == "rep" {
			info := reps[it.t.S]
			iv := info.ivar
			var fs, rs, ls, ms []item // first items, later first items, last items at the end and before another iteration
			var inner string
			for _, alt := range info.alts {
				sub, why := lexText(alt.delta, m.raw)
				if why != "" {
					return why
				}
				if len(sub) == 0 {
					continue
				}
				s := st.clone()
				s.assume(Le(it.t.A[0], iv))
				s.assume(Lt(iv, it.t.A[1]))
				for _, c := range alt.conds {
					s.assume(c)
				}
				if !m.x.sol.Feasible(s.pc, True) {
					continue
				}
				if w := m.checkGlue(s, sub); w != "" {
					inner = w
				}
				if m.x.feasible(s, Eq(iv, it.t.A[0])) {
					fs = append(fs, sub[0])
				}
				if m.x.feasible(s, Lt(it.t.A[0], iv)) {
					rs = append(rs, sub[0])
				}
				// trailing whitespace inside the delta shows as not glued on the next item
				if d := pieces(alt.delta); d[len(d)-1].Op == "str" {
					ss := d[len(d)-1].S
					if c := ss[len(ss)-1]; c == ' ' || c == '\n' || c == '\t' {
						continue
					}
				}
				if m.x.feasible(s, Eq(Add(iv, One), it.t.A[1])) {
					ls = append(ls, sub[len(sub)-1])
				}
				if m.x.feasible(s, Lt(Add(iv, One), it.t.A[1])) {
					ms = append(ms, sub[len(sub)-1])
				}
			}
			if inner != "" {
				return inner
			}
			for _, f := range fs {
				if it.glued && f.glued {
					for _, p := range prev {
						if !glueSafe(m.edge(p, true), m.edge(f, false)) {
							return fmt.Sprintf("%s and %s run together", p, f)
						}
					}
				}
			}
			for _, f := range rs {
				if f.glued {
					for _, p := range ms {
						if !glueSafe(m.edge(p, true), m.edge(f, false)) {
							return fmt.Sprintf("%s and %s run together", p, f)
						}
					}
				}
			}
			if it.glued {
				prev = append(prev, ls...)
			} else {
				prev = ls
			}
			continue
		}
		if i > 0 && it.glued {
			for _, p := range prev {
				if !glueSafe(m.edge(p, true), m.edge(it, false)) {
					return fmt.Sprintf("%s and %s run together", p, it)
				}
			}
		}
		mayEmpty := false
		if it.kind == "node" && it.t.Op == "box" {
			mayEmpty = m.edges[strings.TrimPrefix(tstr(it.t.T), "*sqlast.")].mayEmpty
		}
		if mayEmpty && it.glued {
			prev = append(append([]item(nil), prev...), it)
		} else {
			prev = []item{it}
		}
	}
	return ""
}
