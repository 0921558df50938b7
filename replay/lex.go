package main

import (
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// Reference tokenizer for C05 and C06, written from the text of the properties.

func init() {
	searches["C05"] = func(s *search) { searchLex(s, false) }
	searches["C06"] = func(s *search) { searchLex(s, true) }
}

type rtok struct {
	kind       sqltoken.Kind
	val        string
	quote      rune // words
	word       bool
	a, b       int // characters
	from, to   sqltoken.Pos
	skip, fail bool
}

func refAdv(rs []rune, i int, p sqltoken.Pos) sqltoken.Pos {
	switch {
	case rs[i] == '\r' && i+1 < len(rs) && rs[i+1] == '\n':
	case rs[i] == '\r' || rs[i] == '\n':
		p.Line, p.Col = p.Line+1, 1
	case rs[i] == '\t':
		p.Col += 4
	default:
		p.Col++
	}
	return p
}

var refOps = []struct {
	s string
	k sqltoken.Kind
}{{"<>", sqltoken.Neq}, {"!=", sqltoken.Neq}, {"<=", sqltoken.LtEq}, {">=", sqltoken.GtEq}, {"::", sqltoken.DoubleColon},
	{"<", sqltoken.Lt}, {">", sqltoken.Gt}, {"=", sqltoken.Eq}, {"+", sqltoken.Plus}, {"-", sqltoken.Minus}, {"*", sqltoken.Mult},
	{"/", sqltoken.Div}, {"%", sqltoken.Mod}, {"(", sqltoken.LParen}, {")", sqltoken.RParen}, {",", sqltoken.Comma}, {".", sqltoken.Period},
	{":", sqltoken.Colon}, {";", sqltoken.Semicolon}, {"\\", sqltoken.Backslash}, {"[", sqltoken.LBracket}, {"]", sqltoken.RBracket},
	{"&", sqltoken.Ampersand}, {"{", sqltoken.LBrace}, {"}", sqltoken.RBrace}}

func letter(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }
func digit(r rune) bool  { return '0' <= r && r <= '9' }

type refDialect struct {
	name              string
	d                 dialect.Dialect
	start, part, delm string
}

var refDialects = []refDialect{
	{"GenericSQLDialect", &dialect.GenericSQLDialect{}, "@", "@_", "\""},
	{"MySQLDialect", &dialect.MySQLDialect{}, "@", "@_", "\"`"},
	{"PostgresqlDialect", &dialect.PostgresqlDialect{}, "_", "$_", "\"`"},
}

// refLex tokenizes the text; the last element has fail set if the text is illegal there.
func refLex(d refDialect, rs []rune) []rtok {
	var out []rtok
	p := sqltoken.Pos{Line: 1, Col: 1}
	at := func(i int) rune {
		if i < len(rs) {
			return rs[i]
		}
		return -1
	}
	for i := 0; i < len(rs); {
		r := rs[i]
		t := rtok{a: i}
		part := func(c rune) bool { return c >= 0 && (letter(c) || digit(c) || strings.ContainsRune(d.part, c)) }
		quoted := func(j int) int { // the first character after the literal whose quote is at j, or -1
			var b strings.Builder
			for j++; j < len(rs); j++ {
				if rs[j] == '\'' {
					if at(j+1) == '\'' {
						j++
					} else {
						t.val = b.String()
						return j + 1
					}
				}
				b.WriteRune(rs[j])
			}
			return -1
		}
		j := i + 1
		switch {
		case r == ' ' || r == '\t' || r == '\n':
			t.kind, t.val, t.skip = sqltoken.Whitespace, string(r), true
		case r == '\r':
			if at(j) == '\n' {
				j++
			}
			t.kind, t.val, t.skip = sqltoken.Whitespace, "\n", true
		case r == 'N' && at(j) == '\'':
			t.kind = sqltoken.NationalStringLiteral
			j = quoted(j)
		case letter(r) || strings.ContainsRune(d.start, r):
			for part(at(j)) {
				j++
			}
			t.kind, t.word, t.val = sqltoken.SQLKeyword, true, string(rs[i:j])
		case r == '\'':
			t.kind = sqltoken.SingleQuotedString
			j = quoted(i)
		case strings.ContainsRune(d.delm, r):
			for j < len(rs) && rs[j] != r {
				j++
			}
			if j == len(rs) {
				j = -1
			} else {
				t.kind, t.word, t.val, t.quote = sqltoken.SQLKeyword, true, string(rs[i+1:j]), r
				j++
			}
		case digit(r):
			for digit(at(j)) || at(j) == '.' {
				j++
			}
			t.kind, t.val = sqltoken.Number, string(rs[i:j])
		case r == '-' && at(j) == '-':
			for j < len(rs) && rs[j] != '\n' {
				j++
			}
			t.kind, t.val, t.skip = sqltoken.Comment, string(rs[i+2:j]), true
		case r == '/' && at(j) == '*':
			k := i + 2
			for k < len(rs) && !(rs[k] == '*' && at(k+1) == '/') {
				k++
			}
			if k == len(rs) {
				j = -1
			} else {
				t.kind, t.val, t.skip, j = sqltoken.Comment, string(rs[i+2:k]), true, k+2
			}
		case r == '!' && at(j) != '=':
			j = -1
		default:
			t.kind, t.val = sqltoken.Char, string(r)
			for _, o := range refOps {
				if strings.HasPrefix(string(rs[i:]), o.s) {
					t.kind, t.val, j = o.k, o.s, i+len(o.s)
					break
				}
			}
		}
		t.from = p
		if j < 0 {
			t.fail = true
			return append(out, t)
		}
		t.b = j
		for ; i < j; i++ {
			p = refAdv(rs, i, p)
		}
		t.to = p
		out = append(out, t)
	}
	return out
}

var lexParts = strings.Split("'|''|'''|\"|`|[|]|N'|n'|N|--|-|/*|*/|*|/|**/|/**/|\\|\n|\r|\r\n|\t| |  |a|ab|select|SELECT|Select|_x|@v|x_1|a$b|x@y|0|12|1.5|.|..|,|;|:|::|:::|!|!=|=|<|<=|<>|>|>=|=>|(|)|+|%|&|{|}|$|?|#|^|~|é|日本|α1|😀|ß|ſ|x'y|'it''s'|\"a b\"|`q`|/* c */|-- c\n|-- é\r\n|--\r|'\n'|'\t'|\"\n\"|/*\n*/|/*\r\n*/|'\r'|\x00|\v|\u00a0|ı|İ|K|e|E|1e5|1E+5|0x1F|1_000|1.2.3|e1|_", "|")

func showTok(t *sqltoken.Token) string {
	if t == nil {
		return "nil"
	}
	v := fmt.Sprintf("%q", fmt.Sprint(t.Value))
	if w, ok := t.Value.(*sqltoken.SQLWord); ok && w != nil {
		v = fmt.Sprintf("%+v", *w)
	}
	return fmt.Sprintf("%v %s %d:%d-%d:%d", t.Kind, v, t.From.Line, t.From.Col, t.To.Line, t.To.Col)
}

func (t rtok) show() string {
	v := fmt.Sprintf("%q", t.val)
	if t.word {
		v = fmt.Sprintf("word %q quote %q", t.val, t.quote)
	}
	return fmt.Sprintf("%v %s %d:%d-%d:%d", t.kind, v, t.from.Line, t.from.Col, t.to.Line, t.to.Col)
}

func searchLex(s *search, pos bool) {
	r := rand.New(rand.NewSource(s.seed))
	// texts from the failed obligations' path come first, then short, then longer texts
	for n := 0; s.more(); n++ {
		k := 1 + r.Intn(3)
		if n > 20000 {
			k = 1 + r.Intn(8)
		}
		var b strings.Builder
		for i := 0; i < k; i++ {
			switch r.Intn(12) {
			case 0:
				b.WriteByte(byte(32 + r.Intn(95)))
			case 1:
				if r.Intn(50) == 0 {
					b.WriteString(strings.Repeat(lexParts[r.Intn(len(lexParts))], 1+r.Intn(600)))
				}
			default:
				b.WriteString(lexParts[r.Intn(len(lexParts))])
			}
		}
		tryLex(refDialects[r.Intn(len(refDialects))], b.String(), pos)
	}
}

func tryLex(d refDialect, text string, pos bool) {
	var rs []rune
	for _, c := range text {
		rs = append(rs, c)
	}
	want := refLex(d, rs)
	fails := len(want) > 0 && want[len(want)-1].fail
	intro := fmt.Sprintf("text %q, %s", text, d.name)
	var got []*sqltoken.Token
	var nerr error
	p, to := guardTime(2*time.Second, func() {
		t := sqltoken.NewTokenizer(strings.NewReader(text), d.d)
		for len(got) <= len(rs)+2 {
			tok, err := t.NextToken()
			if err == io.EOF {
				return
			}
			if err != nil {
				nerr = err
				return
			}
			got = append(got, tok)
		}
		nerr = fmt.Errorf("more tokens than characters")
	})
	switch {
	case to:
		found("%s: tokenizing does not finish", intro)
	case p != nil:
		found("%s: panics: %v", intro, p)
	}
	n := len(want)
	if fails {
		n--
	}
	if !pos && fails != (nerr != nil) {
		found("%s: error %v, expected an error: %v", intro, nerr, fails)
	}
	for i := 0; i < n || i < len(got); i++ {
		if i >= n {
			if pos {
				break
			}
			found("%s: unexpected token %d: %s", intro, i, showTok(got[i]))
		}
		if i >= len(got) {
			if pos {
				break
			}
			found("%s: token %d missing: %s", intro, i, want[i].show())
		}
		g, w := got[i], want[i]
		if pos {
			if g == nil || g.From != w.from || g.To != w.to {
				found("%s: token %d is %s, expected %s", intro, i, showTok(g), w.show())
			}
			continue
		}
		ok := g != nil && g.Kind == w.kind
		if ok && w.word {
			q, isw := g.Value.(*sqltoken.SQLWord)
			ok = isw && q.Value == w.val && q.QuoteStyle == w.quote && q.Keyword == strings.ToUpper(w.val)
		} else if ok {
			ok = fmt.Sprint(g.Value) == w.val
		}
		if !ok {
			found("%s: token %d is %s, expected %s", intro, i, showTok(g), w.show())
		}
	}
	// Tokenize, and without comments
	for _, noComment := range []bool{false, true} {
		t := sqltoken.NewTokenizer(strings.NewReader(text), d.d)
		if noComment {
			t = sqltoken.NewTokenizerWithOptions(strings.NewReader(text), sqltoken.Dialect(d.d), sqltoken.DisableParseComment())
		}
		list, err := t.Tokenize()
		if (err != nil) != fails {
			found("%s: Tokenize returns error %v, expected an error: %v", intro, err, fails)
		}
		if fails {
			if len(list) > 0 {
				found("%s: Tokenize returns tokens together with an error", intro)
			}
			continue
		}
		k := 0
		for i := 0; i < n; i++ {
			if noComment && want[i].skip {
				continue
			}
			if k >= len(list) {
				found("%s: Tokenize (comments disabled: %v) lacks %s", intro, noComment, want[i].show())
			}
			g := list[k]
			if g == nil || g.Kind != want[i].kind || g.From != want[i].from || g.To != want[i].to {
				found("%s: Tokenize (comments disabled: %v) returns %s, expected %s", intro, noComment, showTok(g), want[i].show())
			}
			k++
		}
		if k != len(list) {
			found("%s: Tokenize (comments disabled: %v) returns %d tokens, expected %d", intro, noComment, len(list), k)
		}
	}
}
