// Package gspec holds the SQL grammar that the contracts of the parser and the printer are
// stated against: one production per node type, over the fields of that type.
package gspec

import (
	"fmt"
	"os"
	"strings"
)

type Ref struct {
	Field string
	Deref bool
}

type Cond struct {
	Kind  string // "bool", "nn" (non-nil), "len" (non-empty), "eq"
	Ref   Ref
	Const string // eq
	Neg   bool
}

type Elem struct {
	Kind string // lit child each term opt alt if any
	Lit  string
	Word bool
	Ref  Ref
	Refs []Ref // each: the lists walked together
	Sep  string
	SepO bool // the separator may be left out
	Min1 bool
	Term string
	Cond Cond
	Then []*Elem
	Else []*Elem
	Alts [][]*Elem
}

type Rule struct {
	Name string
	Body []*Elem
	// PBody is Body with "any" elements, whose parts may interleave; in Body they follow each other
	PBody []*Elem
	Line  int
	// flags from the header, e.g. @noparse (never produced by the parser)
	Flags map[string]bool
}

type Grammar struct {
	Rules map[string]*Rule
	Names []string
}

type lexer struct {
	s    string
	i    int
	line int
}

func (l *lexer) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("grammar line %d: ", l.line) + fmt.Sprintf(f, a...))
}

func (l *lexer) ws() {
	for l.i < len(l.s) && (l.s[l.i] == ' ' || l.s[l.i] == '\t') {
		l.i++
	}
}

func (l *lexer) peek() byte {
	l.ws()
	if l.i >= len(l.s) {
		return 0
	}
	return l.s[l.i]
}

func (l *lexer) accept(c byte) bool {
	if l.peek() == c {
		l.i++
		return true
	}
	return false
}

func (l *lexer) expect(c byte) {
	if !l.accept(c) {
		l.fail("expected %q at %q", string(c), l.s[l.i:])
	}
}

func isW(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (l *lexer) word() string {
	l.ws()
	j := l.i
	for j < len(l.s) && isW(l.s[j]) {
		j++
	}
	w := l.s[l.i:j]
	if w == "" {
		l.fail("word expected at %q", l.s[l.i:])
	}
	l.i = j
	return w
}

func (l *lexer) ref() Ref {
	d := l.accept('*')
	l.expect('.')
	return Ref{l.word(), d}
}

func (l *lexer) lit() string {
	l.expect('\'')
	j := strings.IndexByte(l.s[l.i:], '\'')
	if j < 0 {
		l.fail("unterminated literal")
	}
	v := l.s[l.i : l.i+j]
	l.i += j + 1
	return strings.NewReplacer("\\n", "\n", "\\t", "\t", "\\\\", "\\").Replace(v)
}

func litElem(v string) *Elem {
	return &Elem{Kind: "lit", Lit: v, Word: isW(v[0])}
}

func (l *lexer) seq(end string) []*Elem {
	var out []*Elem
	for {
		c := l.peek()
		if c == 0 || strings.IndexByte(end, c) >= 0 {
			return out
		}
		switch {
		case c == '\'':
			out = append(out, litElem(l.lit()))
		case c == '.':
			out = append(out, &Elem{Kind: "child", Ref: l.ref()})
		case c == '~':
			l.i++
			l.expect('{')
			b := l.seq("}")
			l.expect('}')
			out = append(out, &Elem{Kind: "opt", Then: b})
		case c == '{':
			l.i++
			e := &Elem{Kind: "alt"}
			for {
				e.Alts = append(e.Alts, l.seq("|}"))
				if !l.accept('|') {
					break
				}
			}
			l.expect('}')
			out = append(out, e)
		case c == '?':
			l.i++
			cd := l.cond()
			l.expect('{')
			e := &Elem{Kind: "if", Cond: cd, Then: l.seq("}")}
			l.expect('}')
			if l.accept(':') {
				l.expect('{')
				e.Else = l.seq("}")
				l.expect('}')
			}
			out = append(out, e)
		default:
			w := l.word()
			if w == "any" {
				l.expect('{')
				e := &Elem{Kind: "any"}
				for {
					e.Alts = append(e.Alts, l.seq("|}"))
					if !l.accept('|') {
						break
					}
				}
				l.expect('}')
				out = append(out, e)
				break
			}
			l.expect('(')
			switch w {
			case "list", "list0", "rows":
				e := &Elem{Kind: "each", Min1: w != "list0"}
				for b := l.peek(); b == '.'; b = l.peek() {
					e.Refs = append(e.Refs, l.ref())
				}
				if l.peek() == '\'' {
					e.Sep = l.lit()
					e.SepO = l.accept('?')
				}
				l.expect(')')
				if w == "rows" {
					l.expect('{')
					e.Then = l.seq("}")
					l.expect('}')
				} else {
					e.Then = []*Elem{{Kind: "child", Ref: Ref{"1", false}}}
				}
				out = append(out, e)
			default:
				e := &Elem{Kind: "term", Term: w, Ref: l.ref()}
				l.expect(')')
				out = append(out, e)
			}
		}
	}
}

func (l *lexer) cond() Cond {
	var c Cond
	c.Neg = l.accept('!')
	if b := l.peek(); b == '.' || b == '*' {
		c.Ref = l.ref()
		c.Kind = "bool"
		if l.accept('=') {
			c.Kind = "eq"
			c.Const = l.word()
		}
		return c
	}
	c.Kind = l.word()
	if c.Kind != "nn" && c.Kind != "len" {
		l.fail("unknown condition %s", c.Kind)
	}
	c.Ref = l.ref()
	return c
}

func Parse(text string) *Grammar {
	g := &Grammar{Rules: map[string]*Rule{}}
	lines := strings.Split(text, "\n")
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		start := i + 1
		if t := strings.TrimSpace(ln); t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		for i+1 < len(lines) && (strings.HasPrefix(lines[i+1], " ") || strings.HasPrefix(lines[i+1], "\t")) {
			i++
			ln += " " + lines[i]
		}
		l := &lexer{s: ln, line: start}
		r := &Rule{Name: l.word(), Line: start, Flags: map[string]bool{}}
		for l.accept('@') {
			r.Flags[l.word()] = true
		}
		l.expect(':')
		r.PBody = l.seq("")
		for _, e := range r.PBody {
			if e.Kind != "any" {
				r.Body = append(r.Body, e)
				continue
			}
			for _, a := range e.Alts {
				r.Body = append(r.Body, a...)
			}
		}
		if l.peek() != 0 {
			l.fail("trailing %q", l.s[l.i:])
		}
		g.Rules[r.Name] = r
		g.Names = append(g.Names, r.Name)
	}
	return g
}

func Load(path string) *Grammar {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return Parse(string(b))
}
