#!/bin/bash
# re-creates the planted bugs in /verif/seeded (all, or those named on the command line)
want=" $* "
plant(){ if [ "$want" = "  " ] || [[ "$want" == *" $1 "* ]]; then echo "== $1"; bash /verif/tools/seed.sh "$@"; else cat >/dev/null; fi; }
HEAD='package xsqlparser_test

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

var _ = bytes.NewBufferString
var _ = errors.New
var _ = fmt.Sprint
var _ = reflect.DeepEqual
var _ = strings.Join
var _ = xsqlparser.NewParser
var _ dialect.Dialect
var _ = sqlast.Walk
var _ = sqlastutil.Apply
var _ = sqltoken.ComparePos
var _ = time.Now
'
body(){ echo "$HEAD"; cat; }

body <<'T' | plant c08-count-star C08 sqlast/ast.go 's/if s\.EndBound != nil \{\n\t\treturn sw/if s.EndBound != nil \&\& s.EndBound != s.StartBound {\n\t\treturn sw/' 'a window frame whose start and end bound are the same node' 'ROWS BETWEEN b AND b is printed as ROWS b, which means another frame'
func TestDemo(t *testing.T) {
	b := &sqlast.UnboundedPreceding{}
	n := &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: sqlast.RowsUnit}, StartBound: b, EndBound: b}
	if got := n.ToSQLString(); got != "ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED PRECEDING" {
		t.Fatal(got)
	}
}
T

body <<'T' | plant c08-frame-following C08 sqlast/ast.go 's/(f\.Bound\)\)\.Bytes\(\[\]byte\(" )FOLLOWING/$1PRECEDING/' 'a window frame with an n FOLLOWING bound printed' 'n FOLLOWING is printed as n PRECEDING'
func TestDemo(t *testing.T) {
	k := uint64(3)
	n := &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: sqlast.RowsUnit}, StartBound: &sqlast.CurrentRow{}, EndBound: &sqlast.Following{Bound: &k}}
	if got := n.ToSQLString(); got != "ROWS BETWEEN CURRENT ROW AND 3 FOLLOWING" {
		t.Fatal(got)
	}
}
T

body <<'T' | plant c09-idents-sep C09 sqlast/writer.go 's/w\.Direct\(ident\.WriteStringTo\(sw\)\)/n, err := ident.WriteStringTo(sw)\n\t\t\t\tw.n, w.err = w.n+n, err\n\t\t\t\tif i == len(idents)-1 \&\& i > 0 {\n\t\t\t\t\tw.err = nil\n\t\t\t\t}/' 'a destination with WriteString that fails on the last identifier of a compound name' 'the error of the destination is lost'
type failWriter struct{ left int }

func (f *failWriter) Write(b []byte) (int, error) { return f.WriteString(string(b)) }
func (f *failWriter) WriteString(s string) (int, error) {
	if len(s) > f.left {
		n := f.left
		f.left = 0
		return n, errors.New("full")
	}
	f.left -= len(s)
	return len(s), nil
}
func TestDemo(t *testing.T) {
	for i := 0; i < 7; i++ {
		if _, err := sqlast.NewObjectName("abc", "def").WriteTo(&failWriter{i}); err == nil {
			t.Fatal("no error with room for", i)
		}
	}
}
T

body <<'T' | plant c09-count C09 sqlast/writer.go 's/(n, err := wt\.WriteTo\(w\.w\)\n)\tw\.n \+= n\n\tif err != nil \{\n\t\tw\.err = err\n\t\}/$1\tif err != nil {\n\t\tw.err = err\n\t\treturn w\n\t}\n\tw.n += n/' 'a destination that fails in the middle of a child node' 'the bytes accepted before the error are not counted'
type failWriter struct{ left, got int }

func (f *failWriter) Write(b []byte) (int, error) {
	if len(b) > f.left {
		n := f.left
		f.left = 0
		f.got += n
		return n, errors.New("full")
	}
	f.left -= len(b)
	f.got += len(b)
	return len(b), nil
}
func TestDemo(t *testing.T) {
	k := uint64(3)
	x := &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: sqlast.RowsUnit}, StartBound: &sqlast.CurrentRow{}, EndBound: &sqlast.Following{Bound: &k}}
	for i := 0; i < 30; i++ {
		w := &failWriter{left: i}
		n, err := x.WriteTo(w)
		if int(n) != w.got || err == nil {
			t.Fatal(i, n, w.got, err)
		}
	}
}
T

body <<'T' | plant c10-limit C10 sqlast/walk.go 's/if n\.WindowsFrame != nil/if n.WindowsFrame != nil \&\& len(n.OrderBy)+len(n.PartitionBy) > 0/' 'a window specification that consists of a frame only' 'Walk skips the frame'
func TestDemo(t *testing.T) {
	fr := &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: sqlast.RowsUnit}, StartBound: &sqlast.CurrentRow{}}
	n := &sqlast.WindowSpec{WindowsFrame: fr}
	got := 0
	sqlast.Inspect(n, func(n sqlast.Node) bool {
		if n == sqlast.Node(fr) {
			got++
		}
		return true
	})
	if got != 1 {
		t.Fatal(got)
	}
}
T

body <<'T' | plant c10-orderby-visitor C10 sqlast/walk.go 's/for _, o := range n\.OrderBy \{\n\t\t\tWalk\(v, o\)/for i, o := range n.OrderBy {\n\t\t\tif i > 0 \&\& o == n.OrderBy[i-1] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tWalk(v, o)/' 'the same ORDER BY node twice in a row in a window specification' 'Walk visits it once'
func TestDemo(t *testing.T) {
	o := &sqlast.OrderByExpr{Expr: sqlast.NewIdent("a")}
	n := &sqlast.WindowSpec{OrderBy: []*sqlast.OrderByExpr{o, o}}
	got := 0
	sqlast.Inspect(n, func(n sqlast.Node) bool {
		if n == sqlast.Node(o) {
			got++
		}
		return true
	})
	if got != 2 {
		t.Fatal(got)
	}
}
T

body <<'T' | plant c11-limit C11 sqlastutil/rewrite.go 's/if n\.EndBound != nil \{/if n.EndBound != nil \&\& n.EndBound != n.StartBound {/' 'a window frame whose two bounds are the same node' 'the end bound is not traversed'
func TestDemo(t *testing.T) {
	b := &sqlast.CurrentRow{}
	n := &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: sqlast.RowsUnit}, StartBound: b, EndBound: b}
	got := ""
	sqlastutil.Apply(n, func(c *sqlastutil.Cursor) bool {
		got += c.Name() + " "
		return true
	}, nil)
	if !strings.Contains(got, "EndBound") {
		t.Fatal(got)
	}
}
T

body <<'T' | plant c11-skip-cursor C11 sqlastutil/rewrite.go 's/a\.cursor = saved\n\t\treturn/a.cursor.node = saved.node\n\t\treturn/' 'pre returns false for a child and post is set' 'the post call of the parent sees the field name and index of the skipped child'
func TestDemo(t *testing.T) {
	n := &sqlast.Between{Expr: sqlast.NewIdent("a"), Low: sqlast.NewIdent("b"), High: sqlast.NewIdent("c")}
	root := &sqlast.Nested{AST: n}
	sqlastutil.Apply(root, func(c *sqlastutil.Cursor) bool { return c.Name() != "High" }, func(c *sqlastutil.Cursor) bool {
		if c.Node() == sqlast.Node(n) && c.Name() != "AST" {
			t.Error(c.Name())
		}
		return true
	})
}
T

body <<'T' | plant c12-insert-before C12 sqlastutil/rewrite.go 's/c\.iter\.index\+\+/if c.iter.step > 0 {\n\t\tc.iter.step++\n\t}/' 'InsertBefore followed by another edit of the same element' 'the second edit goes to the inserted element'
func TestDemo(t *testing.T) {
	n := sqlast.NewObjectName("a", "b", "c")
	sqlastutil.Apply(n, func(c *sqlastutil.Cursor) bool {
		if id, ok := c.Node().(*sqlast.Ident); ok && id.Value == "b" {
			c.InsertBefore(sqlast.NewIdent("x"))
			c.Replace(sqlast.NewIdent("y"))
		}
		return true
	}, nil)
	if s := n.ToSQLString(); s != "a.x.y.c" {
		t.Fatal(s)
	}
}
T

body <<'T' | plant c12-delete-last C12 sqlastutil/rewrite.go 's/c\.iter\.step--/if c.iter.step > 1 {\n\t\tc.iter.step = 1\n\t} else {\n\t\tc.iter.step = 0\n\t}/' 'two or more InsertAfter and then a Delete of the same element' 'the traversal walks an inserted element'
func TestDemo(t *testing.T) {
	m := &sqlast.CompoundIdent{Idents: []*sqlast.Ident{sqlast.NewIdent("p"), sqlast.NewIdent("q")}}
	var seen []string
	sqlastutil.Apply(m, func(c *sqlastutil.Cursor) bool {
		if id, ok := c.Node().(*sqlast.Ident); ok {
			seen = append(seen, id.Value)
			if id.Value == "p" {
				c.InsertAfter(sqlast.NewIdent("r"))
				c.InsertAfter(sqlast.NewIdent("s"))
				c.Delete()
			}
		}
		return true
	}, nil)
	if s := m.ToSQLString() + fmt.Sprint(seen); s != "s.r.q[p q]" {
		t.Fatal(s)
	}
}
T

body <<'T' | plant c14-append-alias C14 sqlast/commentmap.go 's/tmp := make\(\[\]\*CommentGroup, len\(file\.Comments\)\)\n\tcopy\(tmp, file\.Comments\)/tmp := file.Comments[:0]\n\tfor _, c := range file.Comments {\n\t\tif len(c.List) > 0 {\n\t\t\ttmp = append(tmp, c)\n\t\t}\n\t}/' 'a File holding an empty comment group between others' 'building the comment map reorders the list of the File'
func TestDemo(t *testing.T) {
	id := &sqlast.Ident{Value: "a", From: sqltoken.NewPos(2, 1), To: sqltoken.NewPos(2, 2)}
	g := func(l int) *sqlast.CommentGroup {
		return &sqlast.CommentGroup{List: []*sqlast.Comment{{Text: "c", From: sqltoken.NewPos(l, 1), To: sqltoken.NewPos(l, 5)}}}
	}
	a, b := g(1), g(3)
	f := &sqlast.File{Stmts: []sqlast.Stmt{&sqlast.DropTableStmt{TableNames: []*sqlast.ObjectName{{Idents: []*sqlast.Ident{id}}}, Drop: sqltoken.NewPos(2, 0)}}, Comments: []*sqlast.CommentGroup{a, {}, b}}
	func() {
		defer func() { recover() }()
		sqlast.NewCommentMap(f)
	}()
	if f.Comments[0] != a || len(f.Comments[1].List) != 0 || f.Comments[2] != b {
		t.Fatal("changed")
	}
}
T

body <<'T' | plant c14-write-trim C14 sqlast/stmt.go 's/(func \(c \*CreateTableStmt\) WriteTo.*?\n\tsw := newSQLWriter\(w\)\n)/$1\tif c.NotExists \&\& c.Options != nil \&\& len(c.Options) == 0 {\n\t\tc.Options = nil\n\t}\n/s' 'printing a CREATE TABLE IF NOT EXISTS with an empty, non-nil option list' 'printing replaces the list in the tree'
func TestDemo(t *testing.T) {
	c := &sqlast.CreateTableStmt{Name: sqlast.NewObjectName("t"), NotExists: true, Options: []sqlast.TableOption{}}
	_ = c.ToSQLString()
	if c.Options == nil {
		t.Fatal("changed by printing")
	}
}
T
TOK='
func toks(s string, d dialect.Dialect) string {
	l, err := sqltoken.NewTokenizer(strings.NewReader(s), d).Tokenize()
	if err != nil {
		return "error"
	}
	var b strings.Builder
	for _, t := range l {
		v := fmt.Sprint(t.Value)
		if w, ok := t.Value.(*sqltoken.SQLWord); ok {
			v = w.Value + "/" + w.Keyword + "/" + string(rune(w.QuoteStyle+32))
		}
		fmt.Fprintf(&b, "%d|%s|%d:%d-%d:%d;", t.Kind, v, t.From.Line, t.From.Col, t.To.Line, t.To.Col)
	}
	return b.String()
}
'
lbody(){ echo "$HEAD$TOK"; cat; }

lbody <<'T' | plant c05-bang C05 sqltoken/tokenizer.go 's/if n == .=. \{\n\t\t\tt.Scanner.Next\(\)\n\t\t\tt.Col \+= 2\n\t\t\treturn Neq, "!="/if n == 61 || n == 62 {\n\t\t\tt.Scanner.Next()\n\t\t\tt.Col += 2\n\t\t\treturn Neq, "!="/' 'an exclamation mark followed by a greater-than sign' 'the illegal sequence !> is read as the operator !='
func TestDemo(t *testing.T) {
	if got := toks("a !> b", &dialect.GenericSQLDialect{}); got != "error" {
		t.Fatal(got)
	}
}
T

lbody <<'T' | plant c05-comment-eof C05 sqltoken/tokenizer.go 's/if n == scanner.EOF \{\n\t\t\treturn "", errors.Errorf\("unclosed multiline/if n == scanner.EOF \&\& mayBeClosingComment {\n\t\t\tbreak\n\t\t}\n\t\tif n == scanner.EOF {\n\t\t\treturn "", errors.Errorf("unclosed multiline/' 'a multi-line comment that is cut off right after a star' 'an unterminated comment is accepted'
func TestDemo(t *testing.T) {
	if got := toks("a /* b *", &dialect.GenericSQLDialect{}); got != "error" {
		t.Fatal(got)
	}
}
T

lbody <<'T' | plant c06-cr C06 sqltoken/tokenizer.go 's/case .\\r. == r:\n\t\tt.Scanner.Next\(\)\n\t\tn := t.Scanner.Peek\(\)\n\t\tif n == .\\n. \{\n\t\t\tt.Scanner.Next\(\)\n\t\t\}/case 13 == r:\n\t\tt.Scanner.Next()\n\t\tn := t.Scanner.Peek()\n\t\tif n == 10 {\n\t\t\tt.Scanner.Next()\n\t\t} else {\n\t\t\tt.Line -= 1\n\t\t}/' 'a line that ends with a lone carriage return' 'tokens after it report the wrong line'
func TestDemo(t *testing.T) {
	if got, w := toks("a\rb", &dialect.GenericSQLDialect{}), toks("a\nb", &dialect.GenericSQLDialect{}); got != w {
		t.Fatal(got, w)
	}
}
T

lbody <<'T' | plant c06-eof-comment C06 sqltoken/tokenizer.go 's/if .-. == t.Scanner.Peek\(\) \{\n\t\t\tt.Scanner.Next\(\)\n\t\t\tt.Col \+= 2/if 45 == t.Scanner.Peek() {\n\t\t\tt.Scanner.Next()\n\t\t\tt.Col += 2\n\t\t\tif t.Scanner.Peek() == 45 {\n\t\t\t\tt.Col -= 1\n\t\t\t}/' 'a line comment introduced by three dashes' 'the end of the comment and the start of the newline token are one column too small'
func TestDemo(t *testing.T) {
	got := toks("---x\n", &dialect.GenericSQLDialect{})
	if !strings.Contains(got, "1:1-1:5;") {
		t.Fatal(got)
	}
}
T
PARSE='
func parseFile(t *testing.T, s string, comment bool) (string, error) {
	var opts []xsqlparser.ParserOption
	if comment {
		opts = append(opts, xsqlparser.ParseComment())
	}
	p, err := xsqlparser.NewParser(strings.NewReader(s), &dialect.GenericSQLDialect{}, opts...)
	if err != nil {
		return "", err
	}
	f, err := p.ParseFile()
	if err != nil {
		return "", err
	}
	return f.ToSQLString(), nil
}

func parseExpr(s string) (sqlast.Node, error) {
	p, err := xsqlparser.NewParser(strings.NewReader(s), &dialect.GenericSQLDialect{})
	if err != nil {
		return nil, err
	}
	return p.ParseExpr()
}
'
pbody(){ echo "$HEAD$PARSE"; cat; }

pbody <<'T' | plant c03-frame C03 parser.go 's/if t\.Kind == sqltoken\.SQLKeyword \{\n\t\tw := t\.Value\.\(\*sqltoken\.SQLWord\)\n\t\tvar u/if t.Kind != sqltoken.RParen \&\& t.Kind != sqltoken.Number {\n\t\tw := t.Value.(*sqltoken.SQLWord)\n\t\tvar u/' 'a window specification whose ORDER BY is followed by something that is neither a word, a number nor a parenthesis' 'parsing panics'
func TestDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	if _, err := parseFile(t, "SELECT SUM(a) OVER (ORDER BY b 'x') FROM t", false); err == nil {
		t.Fatal("accepted")
	}
}
T

pbody <<'T' | plant c04-ids C04 parser.go 's/(for \{\n\t\ttok, err := p\.nextToken\(\)\n\t\tif err != nil \{\n\t\t\t)break(\n\t\t\}\n\t\tif tok\.Kind == sqltoken\.SQLKeyword && expectIdentifier)/$1if len(idents) > 1 \&\& expectIdentifier {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tbreak$2/' 'a name of two or more parts that is cut off after a period at the end of the text' 'parsing does not return'
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		defer close(done)
		parseFile(t, "DROP TABLE a.b.", false)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("does not return")
	}
}
T

pbody <<'T' | plant c04-case C04 parser.go 's/(results = append\(results, result\)\n)\t\tif ok, _, _ := p\.parseKeyword\("WHEN"\); !ok \{\n\t\t\tbreak\n\t\t\}/$1\t\tif ok, _, err := p.parseKeyword("WHEN"); !ok \&\& err == nil {\n\t\t\tbreak\n\t\t}\n\t\tfor p.index < uint(len(p.tokens)) \&\& p.tokens[p.index].Kind == sqltoken.Comment {\n\t\t\tp.prevToken()\n\t\t\tp.nextToken()\n\t\t}/' 'a comment glued to the WHEN of a second branch of a CASE' 'parsing does not return'
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		defer close(done)
		parseFile(t, "SELECT CASE WHEN a THEN b WHEN/* x */c THEN d END", false)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("does not return")
	}
}
T

pbody <<'T' | plant c17-explain C17 parser.go 's/case "EXPLAIN":\n\t\tstmt, err := p\.ParseStatement\(\)\n\t\tif err != nil \{\n\t\t\treturn nil, err\n\t\t\}/case "EXPLAIN":\n\t\tp.consumeToken(sqltoken.Semicolon)\n\t\tstmt, err := p.ParseStatement()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}/' 'a script with a semicolon right after EXPLAIN' 'EXPLAIN takes the next part of the script as its statement'
func TestDemo(t *testing.T) {
	if s, err := parseFile(t, "EXPLAIN; SELECT 1", false); err == nil {
		t.Fatal(s)
	}
}
T

pbody <<'T' | plant c07-prev C07 parser.go 's/(tok := p\.prevTokenNoSkip\(\)\n\t\tif tok\.Kind == sqltoken\.Whitespace) \|\| tok\.Kind == sqltoken\.Comment \{/$1 {/' 'a comment between MATERIALIZED and VIEW, where the parser steps back over two words' 'the text is rejected because of the comment'
func TestDemo(t *testing.T) {
	a, err := parseFile(t, "CREATE MATERIALIZED VIEW a AS SELECT b", false)
	for _, c := range []bool{false, true} {
		b, e := parseFile(t, "CREATE MATERIALIZED /* c */ VIEW a AS SELECT b", c)
		if a != b || (err == nil) != (e == nil) {
			t.Fatal(a, b, e)
		}
	}
}
T

pbody <<'T' | plant c07-period C07 parser.go 's/(\} else if tok\.Kind == separator && !expectIdentifier) \{/$1 \&\& !(separator == sqltoken.Period \&\& len(idents) > 1 \&\& tok.From != idents[len(idents)-1].To) {/' 'a name of three parts with white space or a comment before the second period' 'white space changes what the text means'
func TestDemo(t *testing.T) {
	a, err := parseFile(t, "DROP TABLE a.b.c", false)
	b, e := parseFile(t, "DROP TABLE a . b . c", false)
	if a != b || (err == nil) != (e == nil) {
		t.Fatal(a, b, err, e)
	}
}
T


pbody <<'T' | plant c17-rows C17 parser.go 's/(RParen: r\.To,\n\t\t\t\}\)\n\t\t\tif ok, _ := p\.consumeToken\(sqltoken\.Comma\); !ok \{\n)(\t\t\t\tbreak)/$1\t\t\t\tif ok, _ := p.consumeToken(sqltoken.Semicolon); ok {\n\t\t\t\t\tif t, _ := p.peekToken(); t.Kind == sqltoken.LParen {\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t\tp.prevToken()\n\t\t\t\t}\n$2/' 'an INSERT ... VALUES whose last row is followed by a semicolon and a parenthesis' 'the part after the semicolon becomes a row of the statement before it'
func TestDemo(t *testing.T) {
	if s, err := parseFile(t, "INSERT INTO a VALUES (1); (2)", false); err == nil {
		t.Fatal(s)
	}
}
T

pbody <<'T' | plant c17-third C17 parser.go 's/(stmts = append\(stmts, stmt\)\n\t\texpectingDelimiter = )true/$1len(stmts) < 3/' 'a script of four statements or more without a semicolon after the third' 'two statements without a semicolon between them are accepted'
func TestDemo(t *testing.T) {
	if s, err := parseFile(t, "DELETE FROM a; DELETE FROM b; DELETE FROM c WHERE d = 1 DELETE FROM e", false); err == nil {
		t.Fatal(s)
	}
}
T

pbody <<'T' | plant c03-nil C03 parser.go 's/(dataType, err := p\.ParseDataType\(\)\n\tif err != nil \{\n\t\treturn nil, errors\.Errorf\("ParseDataType"\)\n\t\}\n\tr, )_( := p\.nextToken\(\)\n\tif )(r\.Kind != sqltoken\.RParen)( \{\n\t\treturn nil, )errors\.Errorf\("expect RParen but %\+v", r\)/$1err$2err != nil || $3$4err/' 'a CAST with something else than a parenthesis at its end' 'parsing yields nil without an error, or panics'
func TestDemo(t *testing.T) {
	n, err := parseExpr("CAST(a AS int b")
	if err == nil || n != nil {
		t.Fatal(n, err)
	}
}
T

pbody <<'T' | plant c15-string C15 parser.go 's/(return &sqlast\.SingleQuotedString\{\n\s*From:\s*tok\.From,\n\s*To:\s*)tok\.To/$1sqltoken.Pos{Line: tok.To.Line, Col: tok.From.Col + len([]rune(str)) + 2}/' 'a string literal that contains a doubled quote, a line break or a tab' 'the literal ends elsewhere than its token'
func TestDemo(t *testing.T) {
	n, err := parseExpr("'it''s'")
	if err != nil || n.End().Col != 8 {
		t.Fatal(n, err)
	}
}
T

pbody <<'T' | plant c15-ident C15 parser.go 's/(return &sqlast\.Ident\{\n\t\tFrom:  tok\.From,\n\t\tTo:    )tok\.To/$1sqltoken.Pos{Line: tok.From.Line, Col: tok.From.Col + len(word.String())}/' 'a name with characters of several bytes, or a delimited one with a line break or tab' 'the identifier ends elsewhere than its token'
func TestDemo(t *testing.T) {
	p, err := xsqlparser.NewParser(strings.NewReader("WITH \"\u00e9\" AS (SELECT 1) SELECT 2 LIMIT 3"), &dialect.GenericSQLDialect{})
	if err != nil {
		t.Fatal(err)
	}
	s, err := p.ParseStatement()
	if err != nil {
		t.Fatal(err)
	}
	sqlast.Inspect(s, func(n sqlast.Node) bool {
		if i, ok := n.(*sqlast.Ident); ok && strings.Contains(i.Value, "\u00e9") && i.End().Col != 9 {
			t.Fatal(i.Pos(), i.End())
		}
		return true
	})
}
T

pbody <<'T' | plant c15-columns C15 parser.go 's/(if tok\.Kind == sqltoken\.SQLKeyword && expectIdentifier \{\n\t\t\texpectIdentifier = false\n\t\t\tword := tok\.Value\.\(\*sqltoken\.SQLWord\)\n)/$1\t\t\tif len(idents) > 3 {\n\t\t\t\ttok.From = idents[len(idents)-1].To\n\t\t\t}\n/' 'a list of five names or more' 'a name starts at the end of the name before it'
func TestDemo(t *testing.T) {
	s := "INSERT INTO a (b, c, d, e, f) VALUES (1, 2, 3, 4, 5)"
	p, err := xsqlparser.NewParser(strings.NewReader(s), &dialect.GenericSQLDialect{})
	if err != nil {
		t.Fatal(err)
	}
	st, err := p.ParseStatement()
	if err != nil {
		t.Fatal(err)
	}
	sqlast.Inspect(st, func(n sqlast.Node) bool {
		if i, ok := n.(*sqlast.Ident); ok && s[i.Pos().Col-1:i.End().Col-1] != i.Value {
			t.Fatal(i.Pos(), i.End())
		}
		return true
	})
}
T

pbody <<'T' | plant c16-frame C16 parser.go 's/u\.FromStr\(w\.Keyword\)/u.FromStr(strings.ToUpper(w.Value))/' 'a delimited identifier spelled like a frame unit in a window specification' 'the delimited identifier is read as the keyword'
func TestDemo(t *testing.T) {
	if n, err := parseExpr("sum(a) OVER (PARTITION BY b \"rows\" BETWEEN CURRENT ROW AND 1 FOLLOWING)"); err == nil {
		t.Fatal(n.ToSQLString())
	}
}
T

pbody <<'T' | plant c16-column C16 parser.go 's/columnName\.String\(\)/columnName.Value/' 'a column definition with a delimited name' 'the quotes of the name are lost'
func TestDemo(t *testing.T) {
	s, err := parseFile(t, "CREATE TABLE a (\"Order\" int)", false)
	if err != nil || !strings.Contains(s, "\"Order\"") {
		t.Fatal(s, err)
	}
}
T

pbody <<'T' | plant c16-setop C16 parser.go 's/(word := token\.Value\.\(\*sqltoken\.SQLWord\)\n\tswitch )word\.Keyword \{\n\tcase "UNION"/$1strings.ToUpper(word.Value) {\n\tcase "UNION"/' 'a delimited identifier "union" where a set operation may stand' 'it is read as the keyword'
func TestDemo(t *testing.T) {
	if s, err := parseFile(t, "SELECT a AS b \"union\" SELECT c", false); err == nil {
		t.Fatal(s)
	}
}
T

pbody <<'T' | plant c02-all C02 parser.go 's/right, err := p\.parseQueryBody\(nextPrecedence\)/operand := nextPrecedence\n\t\tif all {\n\t\t\toperand--\n\t\t}\n\t\tright, err := p.parseQueryBody(operand)/' 'a chain of set operations of equal strength with ALL on an operator before the last' 'the chain groups to the right'
func TestDemo(t *testing.T) {
	p, err := xsqlparser.NewParser(strings.NewReader("SELECT a EXCEPT ALL SELECT b EXCEPT SELECT c"), &dialect.GenericSQLDialect{})
	if err != nil {
		t.Fatal(err)
	}
	s, err := p.ParseStatement()
	if err != nil {
		t.Fatal(err)
	}
	o := s.(*sqlast.QueryStmt).Body.(*sqlast.SetOperationExpr)
	if _, ok := o.Left.(*sqlast.SetOperationExpr); !ok || o.All {
		t.Fatalf("%T %v", o.Left, o.All)
	}
}
T

pbody <<'T' | plant c02-notlike C02 parser.go 's/(ok, _, _ := p\.parseKeyword\("LIKE"\)\n\t\t\tif ok \{\n)/$1\t\t\t\tprecedence = p.getPrecedence(tok)\n/' 'NOT LIKE followed by a comparison operator' 'the comparison groups into the pattern of NOT LIKE'
func TestDemo(t *testing.T) {
	n, err := parseExpr("a NOT LIKE b = c")
	if err != nil {
		t.Fatal(err)
	}
	if b := n.(*sqlast.BinaryExpr); b.Op.Type != sqlast.Eq {
		t.Fatal(b.Op.Type)
	}
}
T

pbody <<'T' | plant c02-unary C02 parser.go 's/(case sqltoken\.Plus:\n\t\t)precedence := p\.getPrecedence\(tok\)/$1precedence := p.getPrecedence(tok) + p.getPrecedence(tok)/' 'a unary plus before a product or a cast' 'the sign binds tighter than the product'
func TestDemo(t *testing.T) {
	n, err := parseExpr("+ a * b")
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := n.(*sqlast.UnaryExpr); !ok {
		t.Fatalf("%T", n)
	}
}
T

pbody <<'T' | plant c01-desc C01 parser.go 's/(func \(p \*Parser\) parseOrderByExprList.*?\n\tvar exprList \[\]\*sqlast\.OrderByExpr\n)(.*?)\t\tvar asc \*bool\n/$1\tvar asc *bool\n$2/s' 'an ORDER BY list in which a sort key with ASC or DESC is followed by one without' 'the later key takes over a direction that its text does not have'
func TestDemo(t *testing.T) {
	s, err := parseFile(t, "SELECT a FROM t ORDER BY b DESC, c", false)
	if err != nil || strings.Count(s, "DESC") != 1 {
		t.Fatal(s, err)
	}
}
T

pbody <<'T' | plant c01-trailing C01 parser.go 's/(after column definition but %v", t\)\n\t\t\} else if t\.Kind == sqltoken\.RParen) \{/$1 {\n\t\t\tbreak\n\t\t} else if ok, _ := p.consumeToken(sqltoken.RParen); ok {/' 'a column list with a comma before its closing parenthesis' 'the comma is skipped'
func TestDemo(t *testing.T) {
	if s, err := parseFile(t, "CREATE TABLE t (a int, )", false); err == nil {
		t.Fatal(s)
	}
}
T

pbody <<'T' | plant c01-frame C01 parser.go 's/(endBound, err := p\.parseWindowFrameBound\(\)\n.*?\n.*?\n\t\t\t\})/$1\n\t\t\tif _, ok := endBound.(*sqlast.CurrentRow); ok {\n\t\t\t\tendBound = nil\n\t\t\t}/' 'a window frame BETWEEN ... AND CURRENT ROW' 'the end of the frame is not in the tree'
func TestDemo(t *testing.T) {
	s, err := parseFile(t, "SELECT SUM(a) OVER (ORDER BY b ROWS BETWEEN 1 PRECEDING AND CURRENT ROW) FROM t", false)
	if err != nil || !strings.Contains(s, "CURRENT ROW") {
		t.Fatal(s, err)
	}
}
T

pbody <<'T' | plant c01-unsigned C01 parser.go 's/(func \(p \*Parser\) parseOptionalPrecisionScale.*?)(p\.expectToken\(sqltoken\.RParen\))/$1if scale != nil \&\& *scale == 0 {\n\t\t\tscale = nil\n\t\t}\n\t\t$2/s' 'numeric(p, 0)' 'the scale 0 is not in the tree'
func TestDemo(t *testing.T) {
	s, err := parseFile(t, "CREATE TABLE t (a numeric(5, 0))", false)
	if err != nil || !strings.Contains(s, "0)") {
		t.Fatal(s, err)
	}
}
T
PCOM='
func commentsOf(t *testing.T, s string) []string {
	p, err := xsqlparser.NewParser(strings.NewReader(s), &dialect.GenericSQLDialect{}, xsqlparser.ParseComment())
	if err != nil {
		t.Fatal(err)
	}
	f, err := p.ParseFile()
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, g := range f.Comments {
		for _, c := range g.List {
			out = append(out, strings.TrimSpace(c.Text))
		}
	}
	return out
}
'
cbody(){ echo "$HEAD$PCOM"; cat; }
cbody <<'T' | plant c13-line C13 parser.go 's/return sqltoken\.ComparePos\(comments\[i\]\.Pos\(\), comments\[j\]\.Pos\(\)\) < 0/return comments[i].Pos().Line < comments[j].Pos().Line/' 'several comments between the tokens of one line' 'comments of one line come back in any order'
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		got := strings.Join(commentsOf(t, "SELECT /*a*/ x /*b*/ , /*c*/ y /*d*/ FROM /*e*/ t /*f*/ WHERE /*g*/ z /*h*/ = /*i*/ 1"), "")
		if got != "abcdefghi" {
			t.Fatal(got)
		}
	}
}
T
cbody <<'T' | plant c13-consume C13 parser.go 's/(func \(p \*Parser\) consumeToken.*?)\ttok, err := p\.peekToken\(\)\n(.*?)tok\.Kind == expected \{\n.*?return true, nil/$1\tu, err := p.tilNonWhitespace()\n$2p.tokens[u].Kind == expected {\n\t\tp.index = u + 1\n\t\treturn true, nil/s' 'a comment between a function name and its parenthesis' 'the comment is not returned'
func TestDemo(t *testing.T) {
	got := strings.Join(commentsOf(t, "SELECT f /*x*/ (a) FROM t"), "")
	if got != "x" {
		t.Fatal(got)
	}
}
T
