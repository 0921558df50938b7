package main

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"gspec"
)

// tok is a token of SQL text, for the oracle's own lexer.
type tok struct {
	kind string // word num str nstr punct qid
	s    string
	sp   bool // whitespace before it
}

func (t tok) String() string {
	switch t.kind {
	case "str":
		return "'" + t.s + "'"
	case "nstr":
		return "N'" + t.s + "'"
	}
	return t.s
}

func toks(ts []tok) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return strings.Join(s, " ")
}

func wordStart(c byte) bool {
	return c == '_' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func wordPart(c byte) bool { return wordStart(c) || c >= '0' && c <= '9' }

// lex splits text into tokens; raw text keeps newlines and tabs as tokens.
func lex(s string) ([]tok, string) {
	var out []tok
	sp := false
	add := func(k, v string) { out = append(out, tok{k, v, sp}); sp = false }
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			sp = true
			i++
		case c == '\'' || (c == 'N' || c == 'n') && i+1 < len(s) && s[i+1] == '\'':
			k := "str"
			if c != '\'' {
				k = "nstr"
				i++
			}
			i++
			v := ""
			for {
				j := strings.IndexByte(s[i:], '\'')
				if j < 0 {
					return out, "unterminated string literal"
				}
				v += s[i : i+j]
				i += j + 1
				if i < len(s) && s[i] == '\'' {
					v += "'"
					i++
					continue
				}
				break
			}
			add(k, v)
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return out, "unterminated delimited identifier"
			}
			add("qid", s[i:i+j+2])
			i += j + 2
		case wordStart(c):
			j := i
			for j < len(s) && wordPart(s[j]) {
				j++
			}
			add("word", s[i:j])
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			add("num", s[i:j])
			i = j
		default:
			n := 1
			for _, op := range []string{"::", "!=", "<>", "<=", ">=", "--", "/*"} {
				if strings.HasPrefix(s[i:], op) {
					n = 2
				}
			}
			if s[i:i+n] == "--" || s[i:i+n] == "/*" {
				return out, "the text contains a comment start"
			}
			add("punct", s[i:i+n])
			i += n
		}
	}
	return out, ""
}

// ---------- matching tokens against a node ----------

type frame struct {
	e    *gspec.Elem
	node reflect.Value // struct
	row  []reflect.Value
	idx  int
	kind string // "" elem, "each" continuation, "any" continuation
	n    int
	prog []int // any: how far each part has come
}

type tmatch struct {
	toks []tok
	best int
	want string
	fuel int
	// parse: productions as they may be written, not only as they are printed
	parse bool
}

func (m *tmatch) body(r *gspec.Rule) []*gspec.Elem {
	if m.parse {
		return r.PBody
	}
	return r.Body
}

// any: the parts of an "any" element in any order, their lists interleaved
func (m *tmatch) any(pos int, f frame, rest []frame) bool {
	prog := f.prog
	if prog == nil {
		prog = make([]int, len(f.e.Alts))
	}
	left := false
	for i, a := range f.e.Alts {
		step := func(k int) frame {
			np := append([]int{}, prog...)
			np[i] += k
			return frame{e: f.e, node: f.node, row: f.row, idx: f.idx, prog: np}
		}
		if len(a) == 1 && a[0].Kind == "each" {
			ln := ref(f, a[0].Refs[0]).Len()
			if prog[i] >= ln {
				continue
			}
			left = true
			var rows []reflect.Value
			for _, r := range a[0].Refs {
				rows = append(rows, ref(f, r))
			}
			st := elems(frame{node: f.node, row: rows, idx: prog[i]}, a[0].Then, append([]frame{step(1)}, rest...))
			if m.run(pos, st) {
				return true
			}
			continue
		}
		if prog[i] > 0 || len(a) == 1 && a[0].Kind == "if" && !evalCond(f, a[0].Cond) && len(a[0].Else) == 0 {
			continue
		}
		left = true
		if m.run(pos, elems(f, a, append([]frame{step(1)}, rest...))) {
			return true
		}
	}
	if left {
		return false
	}
	return m.run(pos, rest)
}

func ref(f frame, r gspec.Ref) reflect.Value {
	var v reflect.Value
	if r.Field == "1" || r.Field == "2" {
		v = f.row[int(r.Field[0]-'1')].Index(f.idx)
	} else {
		v = f.node.FieldByName(r.Field)
	}
	if r.Deref {
		v = v.Elem()
	}
	return v
}

func evalCond(f frame, c gspec.Cond) bool {
	v := ref(f, c.Ref)
	var b bool
	switch c.Kind {
	case "bool":
		b = v.Bool()
	case "nn":
		b = !v.IsNil()
	case "len":
		b = v.Len() > 0
	case "eq":
		b = v.Int() == enums[c.Const]
	}
	return b != c.Neg
}

func elems(f frame, es []*gspec.Elem, rest []frame) []frame {
	out := make([]frame, 0, len(es)+len(rest))
	for _, e := range es {
		out = append(out, frame{e: e, node: f.node, row: f.row, idx: f.idx})
	}
	return append(out, rest...)
}

func strct(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return reflect.Value{}
		}
		v = v.Elem()
	}
	return v
}

func ruleOf(v reflect.Value) *gspec.Rule { return gram.Rules[v.Type().Name()] }

func (m *tmatch) fail(pos int, want string) bool {
	if pos >= m.best {
		m.best = pos
		m.want = want
	}
	return false
}

func (m *tmatch) lit(pos int, l string) bool {
	if pos >= len(m.toks) {
		return false
	}
	t := m.toks[pos]
	if wordStart(l[0]) {
		return t.kind == "word" && strings.EqualFold(t.s, l)
	}
	return t.kind == "punct" && t.s == l
}

func (m *tmatch) run(pos int, st []frame) bool {
	m.fuel--
	if m.fuel < 0 {
		return true
	}
	for len(st) > 0 {
		f := st[0]
		rest := st[1:]
		if f.kind == "each" {
			ln := ref(f, f.e.Refs[0]).Len()
			if f.idx >= ln {
				st = rest
				continue
			}
			if f.idx > 0 && f.e.Sep != "" {
				if m.parse && f.e.SepO && !m.lit(pos, f.e.Sep) {
					pos--
				} else if !m.lit(pos, f.e.Sep) {
					return m.fail(pos, f.e.Sep)
				}
				pos++
			}
			var rows []reflect.Value
			for _, r := range f.e.Refs {
				rows = append(rows, ref(f, r))
			}
			nf := frame{e: f.e, node: f.node, idx: f.idx + 1, kind: "each", row: f.row}
			st = elems(frame{node: f.node, row: rows, idx: f.idx}, f.e.Then, append([]frame{nf}, rest...))
			continue
		}
		e := f.e
		switch e.Kind {
		case "lit":
			if !m.lit(pos, e.Lit) {
				return m.fail(pos, e.Lit)
			}
			pos++
			st = rest
		case "child":
			c := strct(ref(f, e.Ref))
			if !c.IsValid() {
				return m.fail(pos, "child "+e.Ref.Field+" (nil)")
			}
			r := ruleOf(c)
			if r == nil {
				panic("no rule for " + c.Type().Name())
			}
			st = elems(frame{node: c}, m.body(r), rest)
		case "term":
			n, ok := m.term(pos, e.Term, ref(f, e.Ref))
			if !ok {
				return m.fail(pos, e.Term+" "+dump(ref(f, e.Ref).Interface()))
			}
			pos += n
			st = rest
		case "any":
			return m.any(pos, f, rest)
		case "opt":
			if m.run(pos, elems(f, e.Then, rest)) {
				return true
			}
			st = rest
		case "alt":
			for _, a := range e.Alts {
				if m.run(pos, elems(f, a, rest)) {
					return true
				}
			}
			return false
		case "if":
			if evalCond(f, e.Cond) {
				st = elems(f, e.Then, rest)
			} else {
				st = elems(f, e.Else, rest)
			}
		case "each":
			ln := ref(f, e.Refs[0]).Len()
			if e.Min1 && ln == 0 {
				return m.fail(pos, "empty list "+e.Refs[0].Field)
			}
			st = append([]frame{{e: e, node: f.node, row: f.row, kind: "each"}}, rest...)
		}
	}
	if pos != len(m.toks) {
		return m.fail(pos, "end of text")
	}
	return true
}

// text: the tokens at pos are those of s.
func (m *tmatch) text(pos int, s string) (int, bool) {
	vt, bad := lex(s)
	if bad != "" || len(vt) == 0 || pos+len(vt) > len(m.toks) {
		return 0, false
	}
	for i := range vt {
		if m.toks[pos+i].s != vt[i].s || m.toks[pos+i].kind != vt[i].kind {
			return 0, false
		}
	}
	return len(vt), true
}

func (m *tmatch) term(pos int, kind string, v reflect.Value) (int, bool) {
	if kind == "raw" {
		return 0, false
	}
	if pos >= len(m.toks) {
		return 0, false
	}
	t := m.toks[pos]
	switch kind {
	case "id":
		return m.text(pos, v.String())
	case "int":
		if t.kind != "num" {
			return 0, false
		}
		if v.CanInt() {
			return 1, t.s == strconv.FormatInt(v.Int(), 10) || func() bool { x, err := strconv.ParseInt(t.s, 10, 64); return err == nil && x == v.Int() }()
		}
		x, err := strconv.ParseUint(t.s, 10, 64)
		return 1, err == nil && x == v.Uint()
	case "num":
		x, err := strconv.ParseFloat(t.s, 64)
		return 1, t.kind == "num" && err == nil && strings.Contains(t.s, ".") && (x == v.Float() || math.IsNaN(x))
	case "str":
		return 1, t.kind == "str" && t.s == v.String()
	case "nstr":
		return 1, t.kind == "nstr" && t.s == v.String()
	case "date":
		return m.text(pos, v.Interface().(time.Time).Format("2006-01-02"))
	case "time":
		return m.text(pos, v.Interface().(time.Time).Format("15:04:05"))
	case "datetime":
		return m.text(pos, v.Interface().(time.Time).Format("2006-01-02 15:04:05"))
	}
	panic("term " + kind)
}

// derives reports whether the tokens are a derivation of the node; "" if so.
func derives(node interface{}, ts []tok) string {
	return (&tmatch{toks: ts, fuel: 2000000}).derives(node)
}

// parses reports whether the tokens, as they may be written, are a derivation of the node.
func parses(node interface{}, ts []tok) string {
	return (&tmatch{toks: ts, fuel: 200000, parse: true}).derives(node)
}

func (m *tmatch) derives(node interface{}) string {
	ts := m.toks
	v := strct(reflect.ValueOf(node))
	if !v.IsValid() {
		return "nil node"
	}
	r := ruleOf(v)
	if r == nil {
		return ""
	}
	if m.run(0, elems(frame{node: v}, m.body(r), nil)) {
		return ""
	}
	got := "end of text"
	if m.best < len(ts) {
		got = ts[m.best].String()
	}
	return "at token " + strconv.Itoa(m.best) + ": expected " + m.want + ", got " + got
}
