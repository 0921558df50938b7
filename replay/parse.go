package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gspec"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

func init() {
	searches["C01"] = searchC01
	searches["C02"] = searchC02
	searches["C03"] = searchC03
	searches["C04"] = searchC04
	searches["C07"] = searchC07
	searches["C13"] = searchC13
	searches["C15"] = searchC15
	searches["C16"] = searchC16
	searches["C17"] = searchC17
}

// corpus: statements over every construct of the grammar; names and numbers are distinct within one.
var corpus = strings.Split(strings.TrimSpace(`
SELECT 1
SELECT a
SELECT a b
SELECT a AS b , c AS d , e FROM t
SELECT * FROM t
SELECT t . * , u . v . * FROM t , u w , x AS y
SELECT DISTINCT a , b FROM t WHERE c = 1
SELECT ALL a FROM t
SELECT a FROM s . t AS u WHERE a . b . c > 1 GROUP BY d , e HAVING f < 2 ORDER BY g , h ASC , i DESC LIMIT 3
SELECT a FROM t ORDER BY b DESC LIMIT 10 OFFSET 20
SELECT a FROM t LIMIT ALL
SELECT a FROM t LIMIT 5 OFFSET 6
SELECT a FROM t GROUP BY b , c
SELECT a FROM t WHERE b IS NULL AND c IS NOT NULL
SELECT a FROM t WHERE NOT b = 1 OR c = 2 AND NOT d
SELECT a FROM t WHERE b IN ( 1 , 2 , 3 ) AND c NOT IN ( 'x' , 'y' )
SELECT a FROM t WHERE b IN ( SELECT c FROM u ) OR d NOT IN ( SELECT e FROM v WHERE f = 1 )
SELECT a FROM t WHERE b BETWEEN 1 AND 2 AND c NOT BETWEEN 3 + 4 AND 5 * 6
SELECT a FROM t WHERE b LIKE 'x%' OR c NOT LIKE 'y'
SELECT a FROM t WHERE EXISTS ( SELECT b FROM u ) AND NOT EXISTS ( SELECT c FROM v )
SELECT a FROM t WHERE b = ( SELECT c FROM u )
SELECT a FROM t WHERE ( b = 1 OR c = 2 ) AND d != 3 AND e <> 4 AND f >= 5 AND g <= 6
SELECT a + b * c - d / e % f FROM t
SELECT - a , + b , - 1 , a - - b FROM t
SELECT a :: int , b :: varchar ( 10 ) :: text FROM t
SELECT CAST ( a AS int ) , CAST ( b + 1 AS numeric ( 10 , 2 ) ) FROM t
SELECT CAST ( a AS char varying ( 10 ) ) , CAST ( b AS character ( 3 ) ) , CAST ( c AS float ( 4 ) ) FROM t
SELECT CASE WHEN a = 1 THEN 'x' WHEN b = 2 THEN 'y' ELSE 'z' END FROM t
SELECT CASE a WHEN 1 THEN 2 WHEN 3 THEN 4 END FROM t
SELECT CASE WHEN a THEN b END AS c FROM t
SELECT COUNT ( * ) , SUM ( a + b ) , f ( ) , g ( c , d , 1 ) FROM t
SELECT ROW_NUMBER ( ) OVER ( PARTITION BY a , b ORDER BY c DESC , d ) FROM t
SELECT SUM ( a ) OVER ( ) FROM t
SELECT SUM ( a ) OVER ( ORDER BY b ROWS UNBOUNDED PRECEDING ) FROM t
SELECT SUM ( a ) OVER ( ORDER BY b ROWS BETWEEN 1 PRECEDING AND 2 FOLLOWING ) FROM t
SELECT SUM ( a ) OVER ( PARTITION BY b RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW ) FROM t
SELECT SUM ( a ) OVER ( GROUPS BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING ) FROM t
SELECT SUM ( a ) OVER ( PARTITION BY b ROWS 3 PRECEDING ) FROM t
SELECT a FROM t JOIN u ON b = c
SELECT a FROM t INNER JOIN u USING ( b , c )
SELECT a FROM t LEFT JOIN u ON b = c RIGHT JOIN v ON d = e
SELECT a FROM t LEFT OUTER JOIN u ON b = c RIGHT OUTER JOIN v USING ( d ) FULL OUTER JOIN w ON e = f
SELECT a FROM t FULL JOIN u ON b = c
SELECT a FROM t CROSS JOIN u
SELECT a FROM t CROSS JOIN u CROSS JOIN v , w
SELECT a FROM t NATURAL JOIN u
SELECT a FROM t NATURAL LEFT JOIN u NATURAL INNER JOIN v
SELECT a FROM t AS b JOIN u AS c ON d = e
SELECT a FROM t b JOIN u c ON b . d = c . e WHERE f = 1
SELECT a FROM ( SELECT b FROM t ) AS c
SELECT a FROM ( SELECT b FROM t ) c , LATERAL ( SELECT d FROM u ) AS e
SELECT a FROM ( SELECT b FROM t )
SELECT a FROM t JOIN ( SELECT b FROM u ) AS c ON d = e
SELECT a FROM f ( b , 1 ) AS c
SELECT a FROM f ( )
SELECT a FROM t AS b WITH ( c )
SELECT a FROM t WITH ( c , d = 1 )
SELECT a UNION SELECT b
SELECT a UNION ALL SELECT b EXCEPT SELECT c INTERSECT SELECT d
SELECT a INTERSECT SELECT b UNION SELECT c UNION ALL SELECT d
( SELECT a ) UNION ( SELECT b )
SELECT a EXCEPT ALL ( SELECT b UNION SELECT c ) ORDER BY d LIMIT 1
SELECT a FROM t UNION SELECT b FROM u WHERE c = 1 INTERSECT ALL SELECT d FROM v ORDER BY e
WITH a AS ( SELECT b FROM t ) SELECT c FROM a
WITH a AS ( SELECT b ) , c AS ( SELECT d UNION SELECT e ) SELECT f FROM a , c ORDER BY g
WITH a AS ( WITH b AS ( SELECT c ) SELECT d FROM b ) SELECT e FROM a
SELECT 'x' , N'y' , 1.5 , 2 , TRUE , FALSE , NULL
SELECT 'it''s' , '' , 10.0
SELECT ( a ) , ( ( b ) ) , ( c + d ) * e
SELECT ( SELECT a FROM t ) , b
SELECT a , ( SELECT MAX ( b ) FROM u WHERE u . c = t . d ) AS e FROM t
SELECT "a b" , "select" . "From" FROM "order" AS "group"
SELECT a = b AND c < d OR NOT e > f AND g IS NULL
SELECT a FROM t WHERE b = c + d AND e BETWEEN f AND g
SELECT a FROM t WHERE b IS NOT NULL IS NULL
SELECT DATE '2020-01-01'
INSERT INTO t VALUES ( 1 , 2 )
INSERT INTO t ( a , b ) VALUES ( 1 , 'x' ) , ( 2 , 'y' )
INSERT INTO s . t ( a ) VALUES ( b + 1 )
INSERT INTO t ( a , b ) SELECT c , d FROM u WHERE e = 1
INSERT INTO t SELECT a FROM u
INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE b = 2 , c = d + 3
INSERT INTO t ( a ) SELECT b FROM u ON DUPLICATE KEY UPDATE c = 1
INSERT INTO t ( a ) ( SELECT b FROM u )
INSERT INTO t ( a ) WITH b AS ( SELECT c ) SELECT d FROM b
UPDATE t SET a = 1
UPDATE s . t SET a = 1 , b = c + 2 , d = 'x' WHERE e = 3 AND f = 4
UPDATE t SET a = ( SELECT b FROM u ) WHERE c IN ( SELECT d FROM v )
DELETE FROM t
DELETE FROM q . r . s . t
DROP TABLE q . r . s
INSERT INTO q . r . s VALUES ( 1 )
SELECT a FROM q . r . s b
CREATE TABLE q . r . s ( a b . c . d )
DELETE FROM s . t WHERE a = 1 OR b IN ( 1 , 2 )
CREATE VIEW v AS SELECT a FROM t
CREATE MATERIALIZED VIEW s . v AS SELECT a FROM t WHERE b = 1
CREATE VIEW v AS WITH a AS ( SELECT b ) SELECT c FROM a
CREATE VIEW v AS SELECT a UNION SELECT b ORDER BY c
CREATE TABLE t ( a int )
CREATE TABLE IF NOT EXISTS s . t ( a int NOT NULL , b varchar ( 255 ) DEFAULT 'x' UNIQUE )
CREATE TABLE t ( a int PRIMARY KEY , b int REFERENCES u ( c ) , d int CHECK ( d > 0 ) )
CREATE TABLE t ( a int CONSTRAINT b NOT NULL CONSTRAINT c UNIQUE DEFAULT 1 )
CREATE TABLE t ( a int NOT NULL AUTO_INCREMENT , b text )
CREATE TABLE t ( a int AUTO_INCREMENT PRIMARY KEY DEFAULT 3 NOT NULL )
CREATE TABLE t ( a int DEFAULT 1 + 2 NOT NULL CHECK ( a < 3 ) )
CREATE TABLE t ( a int , PRIMARY KEY ( a , b ) , UNIQUE ( c ) )
CREATE TABLE t ( a int , UNIQUE KEY ( c , d ) )
CREATE TABLE t ( a int , CONSTRAINT b PRIMARY KEY ( c ) , CONSTRAINT d FOREIGN KEY ( e , f ) REFERENCES u ( g , h ) )
CREATE TABLE t ( a int , CONSTRAINT b CHECK ( c > 1 AND d < 2 ) , CHECK ( e = 3 ) , FOREIGN KEY ( f ) REFERENCES s . u ( g ) )
CREATE TABLE t ( a int ) ENGINE = InnoDB
CREATE TABLE t ( a int ) ENGINE InnoDB DEFAULT CHARSET = utf8
CREATE TABLE t ( a int ) ENGINE = InnoDB , CHARSET utf8
CREATE TABLE t ( a int ) DEFAULT CHARSET utf8 , ENGINE = b CHARSET = c
CREATE TABLE t ( a boolean , b float , c float ( 3 ) , d real , e double precision , f smallint , g integer , h bigint )
CREATE TABLE t ( a smallint unsigned , b int unsigned , c bigint unsigned , d real unsigned , e float unsigned , f float ( 5 ) unsigned )
CREATE TABLE t ( a varchar , b char ( 3 ) , c character , d char varying , e uuid , f date , g timestamp , h time )
CREATE TABLE t ( a timestamp with time zone , b timestamp without time zone , c time with time zone , d time without time zone )
CREATE TABLE t ( a regclass , b text , c text [ ] , d bytea , e numeric ( 10 ) , f numeric ( 10 , 2 ) unsigned , g s . mytype )
CREATE INDEX a ON t ( b )
CREATE UNIQUE INDEX a ON s . t ( b , c ) WHERE d = 1
CREATE INDEX ON t ( a )
CREATE INDEX a ON t USING btree ( b , c )
CREATE INDEX a ON t
DROP TABLE t
DROP TABLE IF EXISTS t , s . u CASCADE
DROP INDEX a
DROP INDEX a , b , c
ALTER TABLE t ADD COLUMN a int NOT NULL DEFAULT 1
ALTER TABLE s . t ADD CONSTRAINT a UNIQUE ( b , c )
ALTER TABLE t ADD CONSTRAINT a FOREIGN KEY ( b ) REFERENCES u ( c )
ALTER TABLE t ADD PRIMARY KEY ( a )
ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( b )
ALTER TABLE t ADD CHECK ( a > 1 )
ALTER TABLE t DROP COLUMN a
ALTER TABLE t DROP COLUMN a CASCADE
ALTER TABLE t DROP CONSTRAINT a
ALTER TABLE t DROP CONSTRAINT a CASCADE
ALTER TABLE t ALTER COLUMN a SET DEFAULT 1
ALTER TABLE t ALTER COLUMN a DROP DEFAULT
ALTER TABLE t ALTER COLUMN a TYPE varchar ( 10 )
ALTER TABLE t ALTER COLUMN a SET NOT NULL
ALTER TABLE t ALTER COLUMN a DROP NOT NULL
EXPLAIN SELECT a FROM t WHERE b = 1
EXPLAIN EXPLAIN DELETE FROM t
EXPLAIN UPDATE t SET a = 1
`), "\n")

// sqlGen makes token sequences.
type sqlGen struct {
	r     *rand.Rand
	stmts [][]string // the corpus, tokenized
	n     int        // fresh names
}

// split cuts corpus text, whose tokens are separated by blanks, into tokens.
func split(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		if s[i] == ' ' {
			i++
			continue
		}
		j := i
		var q byte
		for j < len(s) && (q != 0 || s[j] != ' ') {
			switch {
			case q == 0 && (s[j] == '\'' || s[j] == '"'):
				q = s[j]
			case q != 0 && s[j] == q:
				q = 0
			}
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func newGen(seed int64) *sqlGen {
	g := &sqlGen{r: rand.New(rand.NewSource(seed))}
	for _, l := range corpus {
		g.stmts = append(g.stmts, split(strings.TrimSpace(l)))
	}
	return g
}

var exprNodes = map[string]bool{"Ident": true, "CompoundIdent": true, "IsNull": true, "IsNotNull": true, "InList": true, "InSubQuery": true, "Between": true, "BinaryExpr": true, "Cast": true, "Nested": true, "UnaryExpr": true, "Function": true, "CaseExpr": true, "Exists": true, "SubQuery": true, "LongValue": true, "DoubleValue": true, "SingleQuotedString": true, "NationalStringLiteral": true, "BooleanValue": true, "NullValue": true}

var typeNodes = map[string]bool{"CharType": true, "VarcharType": true, "UUID": true, "Decimal": true, "Float": true, "SmallInt": true, "Int": true, "BigInt": true, "Real": true, "Double": true, "Boolean": true, "Date": true, "Time": true, "Timestamp": true, "Regclass": true, "Text": true, "Bytea": true, "Array": true, "Custom": true}

func (g *sqlGen) name() string {
	g.n++
	return fmt.Sprintf("n%d", g.n)
}

// emit writes a node as it may be written.
func (g *sqlGen) emit(v reflect.Value) []string {
	c := strct(v)
	return g.emitEs(c, nil, 0, ruleOf(c).PBody)
}

func (g *sqlGen) emitEs(n reflect.Value, row []reflect.Value, idx int, es []*gspec.Elem) (out []string) {
	f := frame{node: n, row: row, idx: idx}
	each := func(e *gspec.Elem, k int) []string {
		var rows []reflect.Value
		for _, r := range e.Refs {
			rows = append(rows, ref(f, r))
		}
		return g.emitEs(n, rows, k, e.Then)
	}
	for _, e := range es {
		switch e.Kind {
		case "lit":
			l := e.Lit
			if e.Word && g.r.Intn(2) == 0 {
				l = strings.ToLower(l)
			}
			out = append(out, l)
		case "child":
			out = append(out, g.emit(ref(f, e.Ref))...)
		case "term":
			v := ref(f, e.Ref)
			switch e.Term {
			case "id":
				if s := v.String(); s[0] == '"' && g.r.Intn(2) == 0 {
					out = append(out, s)
				} else {
					out = append(out, g.name())
				}
			case "int":
				g.n++
				out = append(out, strconv.Itoa(g.n))
			case "num":
				g.n++
				out = append(out, fmt.Sprintf("%d.5", g.n))
			default:
				g.n++
				s := fmt.Sprintf("'s%d %s'", g.n, strings.Repeat("''", g.r.Intn(3)))
				if e.Term == "nstr" {
					s = "N" + s
				}
				out = append(out, s)
			}
		case "opt":
			if g.r.Intn(2) == 0 {
				out = append(out, g.emitEs(n, row, idx, e.Then)...)
			}
		case "alt":
			out = append(out, g.emitEs(n, row, idx, e.Alts[g.r.Intn(len(e.Alts))])...)
		case "if":
			if evalCond(f, e.Cond) {
				out = append(out, g.emitEs(n, row, idx, e.Then)...)
			} else {
				out = append(out, g.emitEs(n, row, idx, e.Else)...)
			}
		case "each":
			ln := ref(f, e.Refs[0]).Len()
			for k := 0; k < ln; k++ {
				if k > 0 && e.Sep != "" && !(e.SepO && g.r.Intn(2) == 0) {
					out = append(out, e.Sep)
				}
				out = append(out, each(e, k)...)
			}
		case "any":
			var parts [][][]string
			for _, a := range e.Alts {
				var p [][]string
				if len(a) == 1 && a[0].Kind == "each" {
					for k := 0; k < ref(f, a[0].Refs[0]).Len(); k++ {
						p = append(p, each(a[0], k))
					}
				} else {
					p = append(p, g.emitEs(n, row, idx, a))
				}
				parts = append(parts, p)
			}
			for {
				var live []int
				for i, p := range parts {
					if len(p) > 0 {
						live = append(live, i)
					}
				}
				if len(live) == 0 {
					break
				}
				i := live[g.r.Intn(len(live))]
				out = append(out, parts[i][0]...)
				parts[i] = parts[i][1:]
			}
		}
	}
	return out
}

var stmtNodes = []string{"QueryStmt", "QueryStmt", "QueryStmt", "QueryStmt", "InsertStmt", "UpdateStmt", "DeleteStmt", "CreateViewStmt", "CreateTableStmt", "CreateTableStmt", "AlterTableStmt", "AlterTableStmt", "DropTableStmt", "CreateIndexStmt", "DropIndexStmt", "ExplainStmt"}

func (g *sqlGen) tree(root string, budget int) []string {
	tg := &treeGen{r: g.r, budget: budget, noRaw: true}
	tg.expr = true
	tg.allow = func(n string) bool {
		r := gram.Rules[n]
		return !r.Flags["noparse"] && !r.Flags["raw"]
	}
	return g.emit(tg.node(root))
}

var spare = []string{"(", ")", ",", ".", "*", "=", "+", "-", ";", "1", "2.5", "'s'", "N's'", "a", "\"q\"", "::", "[", "]", "<", "@", "{", "&", ":", "\\", "18446744073709551616"}

// mutate changes a few tokens.
func (g *sqlGen) mutate(ts []string) []string {
	ts = append([]string{}, ts...)
	for k := 1 + g.r.Intn(3); k > 0 && len(ts) > 0; k-- {
		i := g.r.Intn(len(ts))
		switch g.r.Intn(7) {
		case 0:
			ts = append(ts[:i], ts[i+1:]...)
		case 1:
			ts = append(ts[:i], append([]string{g.any()}, ts[i:]...)...)
		case 2:
			ts[i] = g.any()
		case 3:
			j := g.r.Intn(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 4:
			ts = ts[:i]
		case 5:
			o := g.stmts[g.r.Intn(len(g.stmts))]
			a := g.r.Intn(len(o))
			b := a + 1 + g.r.Intn(len(o)-a)
			ts = append(append(append([]string{}, ts[:i]...), o[a:b]...), ts[i:]...)
		case 6:
			ts = append(ts[:i], append([]string{ts[i]}, ts[i:]...)...)
		}
	}
	return ts
}

// longer repeats an element of a list, or a part of a compound name, with fresh names.
func (g *sqlGen) longer(ts []string) []string {
	var at []int
	for i := 1; i+1 < len(ts); i++ {
		if !wordStart(ts[i][0]) && ts[i][0] != '"' {
			continue
		}
		if (ts[i-1] == "," || ts[i-1] == "(") && (ts[i+1] == "," || ts[i+1] == ")") || ts[i-1] == "." {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return ts
	}
	i := at[g.r.Intn(len(at))]
	sep := ","
	if ts[i-1] == "." {
		sep = "."
	}
	out := append([]string{}, ts[:i+1]...)
	for k := 1 + g.r.Intn(5); k > 0; k-- {
		out = append(out, sep, g.name())
	}
	return append(out, ts[i+1:]...)
}

func (g *sqlGen) any() string {
	if g.r.Intn(3) == 0 {
		return spare[g.r.Intn(len(spare))]
	}
	o := g.stmts[g.r.Intn(len(g.stmts))]
	return o[g.r.Intn(len(o))]
}

// exprStmt: a SELECT of a random operator chain.
func (g *sqlGen) expr(d int) []string {
	var out []string
	atom := func() {
		switch g.r.Intn(9) {
		case 0:
			if d > 0 {
				out = append(append(append(out, "("), g.expr(d-1)...), ")")
				return
			}
			out = append(out, g.name())
		case 1:
			g.n++
			out = append(out, strconv.Itoa(g.n))
		case 2:
			if d > 0 {
				out = append(append(append(out, g.name(), "("), g.expr(d-1)...), ")")
				return
			}
			out = append(out, "NULL")
		case 3:
			out = append(out, g.name(), ".", g.name())
		default:
			out = append(out, g.name())
		}
	}
	operand := func() {
		for g.r.Intn(5) == 0 {
			out = append(out, []string{"NOT", "-", "+"}[g.r.Intn(3)])
		}
		atom()
	}
	operand()
	for g.r.Intn(6) != 0 && len(out) < 40 {
		switch g.r.Intn(12) {
		case 0:
			out = append(out, "IS", "NULL")
			continue
		case 1:
			out = append(out, "IS", "NOT", "NULL")
			continue
		case 2:
			if g.r.Intn(2) == 0 {
				out = append(out, "NOT")
			}
			out = append(out, "IN", "(", g.name(), ",", g.name(), ")")
			continue
		case 3:
			if g.r.Intn(2) == 0 {
				out = append(out, "NOT")
			}
			out = append(out, "BETWEEN")
			operand()
			for g.r.Intn(3) == 0 {
				out = append(out, []string{"+", "-", "*", "/"}[g.r.Intn(4)])
				operand()
			}
			out = append(out, "AND")
		case 4:
			out = append(out, "::", []string{"int", "text"}[g.r.Intn(2)])
			continue
		case 5:
			out = append(out, "NOT", "LIKE")
		default:
			ops := []string{"OR", "AND", "=", "!=", "<>", "<", ">", "<=", ">=", "LIKE", "+", "-", "*", "/", "%"}
			out = append(out, ops[g.r.Intn(len(ops))])
		}
		operand()
	}
	return out
}

func (g *sqlGen) setOps(d int) []string {
	var out []string
	term := func() {
		if d > 0 && g.r.Intn(4) == 0 {
			out = append(append(append(out, "("), g.setOps(d-1)...), ")")
			return
		}
		out = append(out, "SELECT", g.name())
	}
	term()
	for g.r.Intn(5) != 0 {
		out = append(out, []string{"UNION", "EXCEPT", "INTERSECT"}[g.r.Intn(3)])
		if g.r.Intn(3) == 0 {
			out = append(out, "ALL")
		}
		term()
	}
	return out
}

// next: one statement, without semicolons if plain.
func (g *sqlGen) next(k int) []string {
	g.n = 0
	if k < len(g.stmts) {
		return g.stmts[k]
	}
	switch g.r.Intn(8) {
	case 0:
		ts := g.stmts[g.r.Intn(len(g.stmts))]
		for i := 0; i < 1+g.r.Intn(2); i++ {
			ts = g.longer(ts)
		}
		return ts
	case 1, 2:
		return g.mutate(g.stmts[g.r.Intn(len(g.stmts))])
	case 3:
		return append([]string{"SELECT"}, g.expr(2)...)
	case 4:
		return g.setOps(2)
	case 5:
		return g.mutate(g.tree(stmtNodes[g.r.Intn(len(stmtNodes))], 6+g.r.Intn(20)))
	default:
		return g.tree(stmtNodes[g.r.Intn(len(stmtNodes))], 4+g.r.Intn(25))
	}
}

func noSemi(ts []string) []string {
	var out []string
	for _, t := range ts {
		if t != ";" {
			out = append(out, t)
		}
	}
	return out
}

// ---------- running the parser ----------

type entry struct {
	name string
	f    func(p *xsqlparser.Parser) (interface{}, error)
}

var entries = []entry{
	{"ParseStatement", func(p *xsqlparser.Parser) (interface{}, error) { return p.ParseStatement() }},
	{"ParseSQL", func(p *xsqlparser.Parser) (interface{}, error) { return p.ParseSQL() }},
	{"ParseFile", func(p *xsqlparser.Parser) (interface{}, error) { return p.ParseFile() }},
	{"ParseExpr", func(p *xsqlparser.Parser) (interface{}, error) { return p.ParseExpr() }},
	{"ParseDataType", func(p *xsqlparser.Parser) (interface{}, error) { return p.ParseDataType() }},
}

func entryOf(name string) entry {
	for _, e := range entries {
		if e.name == name {
			return e
		}
	}
	panic(name)
}

var dialects = []struct {
	name string
	d    dialect.Dialect
}{
	{"generic", &dialect.GenericSQLDialect{}},
	{"postgres", &dialect.PostgresqlDialect{}},
	{"mysql", &dialect.MySQLDialect{}},
}

func run(e entry, text string, d dialect.Dialect, comment bool) (res interface{}, err error) {
	var p *xsqlparser.Parser
	if comment {
		p, err = xsqlparser.NewParser(bytes.NewBufferString(text), d, xsqlparser.ParseComment())
	} else {
		p, err = xsqlparser.NewParser(bytes.NewBufferString(text), d)
	}
	if err != nil {
		return nil, err
	}
	return e.f(p)
}

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// outcome: what a parse yields apart from positions and error texts; panics are another property's.
func outcome(e entry, text string, d dialect.Dialect, comment bool) (s string, ok bool) {
	p := guard(func() {
		res, err := run(e, text, d, comment)
		if err != nil {
			s = "an error"
			return
		}
		if f, is := res.(*sqlast.File); is && f != nil {
			res = f.Stmts
		}
		s = shape(res)
		ok = true
	})
	if p != nil {
		return "a panic", false
	}
	return s, ok
}

// shape is the tree without positions.
func shape(x interface{}) string {
	var b strings.Builder
	shapeV(&b, reflect.ValueOf(x), nil)
	return b.String()
}

func shapeV(b *strings.Builder, v reflect.Value, leaf func(v reflect.Value) (string, bool)) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		shapeV(b, v.Elem(), leaf)
	case reflect.Struct:
		if v.Type() == posType {
			return
		}
		if leaf != nil {
			if s, ok := leaf(v); ok {
				b.WriteString(s)
				return
			}
		}
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Anonymous || f.Type() == posType || f.Type() == reflect.PtrTo(posType) {
				continue
			}
			if f.IsZero() {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			shapeV(b, f, leaf)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			shapeV(b, v.Index(i), leaf)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + " ..."
	}
	return s
}

func mode(c bool) string {
	if c {
		return "with comment collection"
	}
	return "without comment collection"
}

// significant tokens of text as the code's own tokenizer delivers them.
func significant(text string) (raw []*sqltoken.Token, ts []tok, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	all, err := sqltoken.NewTokenizer(bytes.NewBufferString(text), &dialect.GenericSQLDialect{}).Tokenize()
	if err != nil {
		return nil, nil, false
	}
	for _, t := range all {
		var k tok
		switch t.Kind {
		case sqltoken.Whitespace, sqltoken.Comment:
			continue
		case sqltoken.SQLKeyword:
			w, is := t.Value.(*sqltoken.SQLWord)
			if !is {
				return nil, nil, false
			}
			k = tok{kind: "word", s: w.Value}
			if w.QuoteStyle != 0 {
				k = tok{kind: "qid", s: "\"" + w.Value + "\""}
			}
		case sqltoken.Number:
			k = tok{kind: "num", s: t.Value.(string)}
		case sqltoken.SingleQuotedString:
			k = tok{kind: "str", s: t.Value.(string)}
		case sqltoken.NationalStringLiteral:
			k = tok{kind: "nstr", s: t.Value.(string)}
		default:
			k = tok{kind: "punct", s: fmt.Sprint(t.Value)}
		}
		ts = append(ts, k)
		raw = append(raw, t)
	}
	return raw, ts, true
}

// eachText runs f on statements until the time is over.
func eachText(s *search, f func(g *sqlGen, ts []string)) {
	g := newGen(s.seed)
	for k := 0; s.more(); k++ {
		f(g, g.next(k))
	}
}

// ---------- C01 ----------

// words: the upper case words in the sources of the code under test.
func words() []string {
	dir := os.Getenv("GOVER_REPO")
	if dir == "" {
		dir = "/repo"
	}
	seen := map[string]bool{}
	var out []string
	for _, pat := range []string{"*.go", "*/*.go"} {
		files, _ := filepath.Glob(filepath.Join(dir, pat))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, "keywords.go") {
				continue
			}
			b, _ := os.ReadFile(f)
			for _, m := range wordLit.FindAllStringSubmatch(string(b), -1) {
				for _, w := range strings.Fields(m[1]) {
					if !seen[w] {
						seen[w] = true
						out = append(out, w)
					}
				}
			}
		}
	}
	return out
}

var wordLit = regexp.MustCompile("[\"`]([A-Z_ ]+)[\"`]")

// checkC01 compares what the entry points return with the text.
func checkC01(ts []string, comment bool) {
	gd := dialects[0].d
	text := strings.Join(ts, " ")
	_, toks, ok := significant(text)
	if !ok {
		return
	}
	var res interface{}
	var err error
	if guard(func() { res, err = run(entryOf("ParseSQL"), text, gd, comment) }) != nil || err != nil {
		return
	}
	stmts := res.([]sqlast.Stmt)
	var parts [][]tok
	start := 0
	for i, t := range toks {
		if t.kind == "punct" && t.s == ";" {
			if i > start {
				parts = append(parts, toks[start:i])
			}
			start = i + 1
		}
	}
	if start < len(toks) {
		parts = append(parts, toks[start:])
	}
	if len(parts) != len(stmts) {
		found("ParseSQL(%q), %s, succeeds with %d statements, the text has %d", text, mode(comment), len(stmts), len(parts))
	}
	for i, st := range stmts {
		if bad := parses(st, parts[i]); bad != "" {
			found("ParseSQL(%q), %s, succeeds, but its tree does not derive the text: %s\ntree: %s", text, mode(comment), bad, clip(dump(st)))
		}
	}
}

// partC01: a tree that parses the beginning of the text.
func partC01(name string, ts []string, comment bool) {
	text := strings.Join(ts, " ")
	_, toks, ok := significant(text)
	if !ok {
		return
	}
	var res interface{}
	var err error
	if guard(func() { res, err = run(entryOf(name), text, dialects[0].d, comment) }) != nil || err != nil || isNil(res) {
		return
	}
	bad := ""
	for k := len(toks); k > 0; k-- {
		if bad = parses(res, toks[:k]); bad == "" {
			return
		}
	}
	found("%s(%q), %s, succeeds, but its tree derives no beginning of the text: %s\ntree: %s", name, text, mode(comment), bad, clip(dump(res)))
}

func splice(ts []string, i, j int, w ...string) []string {
	out := append([]string{}, ts[:i]...)
	out = append(out, w...)
	return append(out, ts[j:]...)
}

func searchC01(s *search) {
	g := newGen(s.seed)
	for _, ts := range g.stmts {
		checkC01(ts, true)
		for i := range ts {
			checkC01(splice(ts, i, i+1), false)
			checkC01(splice(ts, i, i, ts[i]), false)
			checkC01(splice(ts, i, i, ";"), false)
			for _, w := range []string{"0", "1", "2147483648", "''", "'a b'", "a", "\"a b\"", "*"} {
				checkC01(splice(ts, i, i+1, w), false)
				checkC01(splice(ts, i+1, i+1, w), false)
				checkC01(splice(ts, i+1, i+1, ",", w), false)
				checkC01(splice(ts, i+1, i+1, ".", w), false)
			}
			if i > 0 {
				partC01("ParseExpr", ts[i:], false)
				partC01("ParseDataType", ts[i:], false)
				checkC01(splice(ts, i-1, i+1, ts[i], ts[i-1]), false)
			}
		}
	}
	// every known word, inserted in and put for every token, over a third of the time
	dict := append(words(), spare...)
	half := time.Now().Add(time.Until(s.deadline) * 2 / 3)
	for k := range g.r.Perm(len(g.stmts)) {
		ts := g.stmts[k]
		if time.Now().After(half) {
			break
		}
		for i := 0; i <= len(ts); i++ {
			for _, w := range dict {
				checkC01(splice(ts, i, i, w), false)
				if i < len(ts) {
					checkC01(splice(ts, i, i+1, w), false)
				}
			}
		}
	}
	eachText(s, func(g *sqlGen, ts []string) {
		comment := g.r.Intn(2) == 0
		switch g.r.Intn(8) {
		case 0:
			ts = append(append(append([]string{}, ts...), ";"), g.next(len(g.stmts))...)
		case 1:
			if len(ts) > 1 {
				partC01("ParseExpr", ts[1+g.r.Intn(len(ts)-1):], comment)
			}
		case 2:
			if len(ts) > 0 {
				i := g.r.Intn(len(ts))
				ts = splice(ts, i, i, dict[g.r.Intn(len(dict))])
			}
		}
		checkC01(ts, comment)
	})
}

// ---------- C02 ----------

const inf = math.MaxInt32

var opPrec = map[string]int{"Or": 5, "And": 10, "Like": 20, "NotLike": 20, "Gt": 20, "Lt": 20, "GtEq": 20, "LtEq": 20, "Eq": 20, "NotEq": 20, "Plus": 30, "Minus": 30, "Multiply": 40, "Divide": 40, "Modulus": 40}

func opOf(o *sqlast.Operator) string {
	for n := range opPrec {
		if c, ok := enums[n]; ok && int64(o.Type) == c {
			return n
		}
	}
	if int64(o.Type) == enums["Not"] {
		return "Not"
	}
	return ""
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// prec: the loosest operators open to the left and to the right edge of the text of n.
func prec(n sqlast.Node, bad *string) (lm, rm int) {
	fail := func(f string, a ...interface{}) {
		if *bad == "" {
			*bad = fmt.Sprintf(f, a...)
		}
	}
	left := func(x sqlast.Node, q int, what string) int {
		l, r := prec(x, bad)
		if r < q {
			fail("the left operand of %s ends in a looser operator", what)
		}
		return l
	}
	right := func(x sqlast.Node, q int, what string) int {
		l, r := prec(x, bad)
		if l <= q {
			fail("the right operand of %s holds an operator that is not tighter", what)
		}
		return r
	}
	switch x := n.(type) {
	case *sqlast.BinaryExpr:
		o := opOf(x.Op)
		q, ok := opPrec[o]
		if !ok {
			return inf, inf
		}
		l := left(x.Left, q, o)
		r := right(x.Right, q, o)
		return min(q, l), min(q, r)
	case *sqlast.UnaryExpr:
		q := 30
		if opOf(x.Op) == "Not" {
			q = 15
		}
		r := right(x.Expr, q, "a unary operator")
		return inf, min(q, r)
	case *sqlast.IsNull:
		return min(17, left(x.X, 17, "IS NULL")), inf
	case *sqlast.IsNotNull:
		return min(17, left(x.X, 17, "IS NOT NULL")), inf
	case *sqlast.InList:
		for _, e := range x.List {
			prec(e, bad)
		}
		return min(20, left(x.Expr, 20, "IN")), inf
	case *sqlast.InSubQuery:
		return min(20, left(x.Expr, 20, "IN")), inf
	case *sqlast.Between:
		l := left(x.Expr, 20, "BETWEEN")
		right(x.Low, 20, "BETWEEN")
		r := right(x.High, 20, "BETWEEN .. AND")
		return min(20, l), min(20, r)
	case *sqlast.Cast:
		// written with :: or with CAST
		return inf, inf
	case *sqlast.Nested:
		prec(x.AST, bad)
	case *sqlast.Function:
		for _, e := range x.Args {
			prec(e, bad)
		}
	}
	return inf, inf
}

func precCast(n sqlast.Node, bad *string) {
	allNodes(reflect.ValueOf(n), func(m sqlast.Node) {
		if c, ok := m.(*sqlast.Cast); ok {
			if _, r := prec(c.Expr, bad); r < 50 && *bad == "" {
				*bad = "the operand of :: ends in a looser operator"
			}
		}
	})
}

func setPrec(n sqlast.SQLSetExpr, bad *string) (lm, rm int) {
	x, ok := n.(*sqlast.SetOperationExpr)
	if !ok {
		if q, ok := n.(*sqlast.QueryExpr); ok {
			setPrec(q.Query.Body, bad)
		}
		return inf, inf
	}
	q := 10
	if _, ok := x.Op.(*sqlast.IntersectOperator); ok {
		q = 20
	}
	l1, r1 := setPrec(x.Left, bad)
	l2, r2 := setPrec(x.Right, bad)
	if r1 < q {
		*bad = "the left operand of a set operation ends in a looser operation"
	}
	if l2 <= q {
		*bad = "the right operand of a set operation holds an operation that is not tighter"
	}
	return min(q, l1), min(q, r2)
}

func searchC02(s *search) {
	searchShape(s)
	gd := dialects[0].d
	g := newGen(s.seed)
	for k := 0; s.more(); k++ {
		g.n = 0
		sets := k%3 == 2
		var ts []string
		if sets {
			ts = g.setOps(2)
		} else {
			ts = append([]string{"SELECT"}, g.expr(2)...)
		}
		text := strings.Join(ts, " ")
		var res interface{}
		var err error
		if guard(func() { res, err = run(entryOf("ParseSQL"), text, gd, false) }) != nil || err != nil {
			continue
		}
		stmts := res.([]sqlast.Stmt)
		if len(stmts) != 1 {
			continue
		}
		_, toks, ok := significant(text)
		q, isQ := stmts[0].(*sqlast.QueryStmt)
		if !ok || !isQ || parses(q, toks) != "" {
			continue
		}
		bad := ""
		if sets {
			setPrec(q.Body, &bad)
		} else if se, ok := q.Body.(*sqlast.SelectExpr); ok {
			for _, it := range se.Select.Projection {
				if u, ok := it.(*sqlast.UnnamedSelectItem); ok {
					prec(u.Node, &bad)
					if !strings.Contains(text, "CAST") {
						precCast(u.Node, &bad)
					}
				}
			}
		}
		if bad != "" {
			found("ParseSQL(%q) groups wrongly: %s\ntree: %s", text, bad, clip(dump(q)))
		}
	}
}

// ---------- C03, C04 ----------

// anyText: a text of any kind, also broken ones.
func anyText(g *sqlGen, ts []string) string {
	r := g.r
	switch r.Intn(8) {
	case 0:
		if len(ts) > 0 {
			ts = ts[:r.Intn(len(ts)+1)]
		}
	case 1, 2:
		ts = g.mutate(ts)
	case 3:
		// an expression or data type part
		if len(ts) > 1 {
			ts = ts[r.Intn(len(ts)):]
		}
	}
	sep := []string{" ", "\n", " /* c */ ", " -- d\n", "\t"}
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			if r.Intn(4) == 0 {
				b.WriteString(sep[r.Intn(len(sep))])
			} else {
				b.WriteString(" ")
			}
		}
		b.WriteString(t)
	}
	text := b.String()
	if r.Intn(6) == 0 && len(text) > 0 {
		rs := []rune(text)
		bits := []string{"'", "\"", "/*", "--", "*/", "N'", "`", "[", "]", "\x00", "é", ".", "!", ":", "|", "\\", "\r"}
		i := r.Intn(len(rs) + 1)
		text = string(rs[:i]) + bits[r.Intn(len(bits))] + string(rs[i:])
	}
	if r.Intn(6) == 0 && len(text) > 0 {
		text = text[:r.Intn(len(text))]
	}
	if r.Intn(6) == 0 {
		text += sep[r.Intn(len(sep))]
	}
	return text
}

func searchC03(s *search) {
	eachText(s, func(g *sqlGen, ts []string) {
		texts := []string{anyText(g, ts)}
		if g.r.Intn(20) == 0 {
			texts = nil
			for i := 0; i <= len(ts); i++ {
				texts = append(texts, strings.Join(ts[:i], " "))
			}
		}
		for _, text := range texts {
			for _, e := range entries {
				d := dialects[g.r.Intn(len(dialects))]
				comment := g.r.Intn(2) == 0
				var res interface{}
				var err error
				p, late := guardTime(10*time.Second, func() { res, err = run(e, text, d.d, comment) })
				if late {
					continue
				}
				if p != nil {
					found("%s(%q), %s dialect, %s, panics: %v", e.name, text, d.name, mode(comment), p)
				}
				if err != nil && !isNil(res) {
					found("%s(%q), %s dialect, %s, returns an error (%v) together with a result: %s", e.name, text, d.name, mode(comment), err, clip(dump(res)))
				}
				if err == nil && isNil(res) && e.name != "ParseSQL" {
					found("%s(%q), %s dialect, %s, returns neither a result nor an error", e.name, text, d.name, mode(comment))
				}
			}
		}
	})
}

func searchC04(s *search) {
	eachText(s, func(g *sqlGen, ts []string) {
		text := anyText(g, ts)
		for _, e := range entries {
			d := dialects[g.r.Intn(len(dialects))]
			comment := g.r.Intn(2) == 0
			if _, late := guardTime(10*time.Second, func() { run(e, text, d.d, comment) }); late {
				found("%s(%q), %s dialect, %s, does not return", e.name, text, d.name, mode(comment))
			}
		}
	})
}

// ---------- C07 ----------

func isWordTok(t string) bool { return t != "" && wordPart(t[len(t)-1]) }

// layout joins tokens with random whitespace and comments.
func (g *sqlGen) layout(ts []string) string {
	bits := []string{" ", "\n", "\t", "  \n ", " /* c */ ", " -- d\n", " /* e */\n/* f */ -- g\n\n", "/**/", "\r\n", " --\n"}
	var b strings.Builder
	if g.r.Intn(4) == 0 {
		b.WriteString(bits[g.r.Intn(len(bits))])
	}
	dense := g.r.Intn(3) == 0
	tight := g.r.Intn(3) == 0
	for i, t := range ts {
		b.WriteString(t)
		if i == len(ts)-1 {
			break
		}
		if tight && glued(t, ts[i+1]) && g.r.Intn(4) > 0 {
			continue
		}
		sep := " "
		if dense || g.r.Intn(3) == 0 {
			sep = bits[g.r.Intn(len(bits))]
		}
		if !isWordTok(t) && sep[0] != ' ' {
			sep = " " + sep
		}
		b.WriteString(sep)
		for g.r.Intn(5) == 0 {
			b.WriteString(bits[g.r.Intn(len(bits))])
		}
	}
	if g.r.Intn(4) == 0 {
		b.WriteString(" " + bits[g.r.Intn(len(bits))])
	}
	if g.r.Intn(8) == 0 {
		b.WriteString(" -- end")
	}
	return b.String()
}

// glued: no white space is needed between a and b.
func glued(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	punct := func(s string) bool { return len(s) == 1 && strings.Contains("(),;[]", s) }
	if punct(a) || punct(b) {
		return true
	}
	name := func(s string) bool { return s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z' }
	return a == "." && name(b) || b == "." && name(a)
}

func searchC07(s *search) {
	gd := dialects[0].d
	eachText(s, func(g *sqlGen, ts []string) {
		if len(ts) == 0 {
			return
		}
		if g.r.Intn(6) == 0 {
			ts = g.mutate(ts)
		}
		if g.r.Intn(8) == 0 {
			ts = append(append(append([]string{}, ts...), ";"), g.next(len(g.stmts))...)
		}
		base := strings.Join(ts, " ")
		for k := 0; k < 4; k++ {
			e := entries[g.r.Intn(len(entries))]
			use := ts
			if (e.name == "ParseExpr" || e.name == "ParseDataType") && len(ts) > 1 {
				use = ts[1+g.r.Intn(len(ts)-1):]
				base = strings.Join(use, " ")
			} else {
				base = strings.Join(ts, " ")
			}
			want, _ := outcome(e, base, gd, false)
			if want == "a panic" {
				continue
			}
			for j := 0; j < 3; j++ {
				text := g.layout(use)
				c := g.r.Intn(2) == 0
				if got, _ := outcome(e, text, gd, c); got != want {
					found("%s(%q) without comment collection yields %s\n%s(%q), %s, which differs only in whitespace and comments, yields %s", e.name, base, clip(want), e.name, text, mode(c), clip(got))
				}
			}
			if got, _ := outcome(e, base, gd, true); got != want {
				found("%s(%q) without comment collection yields %s\nbut with comment collection %s", e.name, base, clip(want), clip(got))
			}
		}
	})
}

// ---------- C13 ----------

func searchC13(s *search) {
	gd := dialects[0].d
	eachText(s, func(g *sqlGen, ts []string) {
		text := g.layout(ts)
		var res interface{}
		var err error
		if guard(func() { res, err = run(entryOf("ParseFile"), text, gd, true) }) != nil || err != nil {
			return
		}
		all, err := sqltoken.NewTokenizer(bytes.NewBufferString(text), gd).Tokenize()
		if err != nil {
			return
		}
		var want, got []string
		for _, t := range all {
			if t.Kind == sqltoken.Comment {
				want = append(want, fmt.Sprintf("%v-%v %q", t.From, t.To, t.Value))
			}
		}
		for _, c := range res.(*sqlast.File).Comments {
			for _, x := range c.List {
				got = append(got, fmt.Sprintf("%v-%v %q", x.From, x.To, x.Text))
			}
		}
		if strings.Join(want, ";") != strings.Join(got, ";") {
			found("ParseFile(%q) with comment collection returns the comments\n%s\nthe text has\n%s", text, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	})
}

// ---------- C15 ----------

// leafOf: the token kind and value a leaf node stands for.
func leafOf(n sqlast.Node) (from, to sqltoken.Pos, is func(t *sqltoken.Token) bool, ok bool) {
	str := func(t *sqltoken.Token) string {
		s, _ := t.Value.(string)
		return s
	}
	word := func(t *sqltoken.Token) string {
		w, ok := t.Value.(*sqltoken.SQLWord)
		if !ok {
			return ""
		}
		if w.QuoteStyle != 0 {
			return w.String()
		}
		return w.Value
	}
	switch x := n.(type) {
	case *sqlast.Ident:
		return x.Pos(), x.End(), func(t *sqltoken.Token) bool { return word(t) == x.Value }, true
	case *sqlast.LongValue:
		return x.Pos(), x.End(), func(t *sqltoken.Token) bool {
			v, err := strconv.ParseInt(str(t), 10, 64)
			return t.Kind == sqltoken.Number && err == nil && v == x.Long
		}, true
	case *sqlast.DoubleValue:
		return x.Pos(), x.End(), func(t *sqltoken.Token) bool {
			v, err := strconv.ParseFloat(str(t), 64)
			return t.Kind == sqltoken.Number && err == nil && v == x.Double
		}, true
	case *sqlast.SingleQuotedString:
		return x.Pos(), x.End(), func(t *sqltoken.Token) bool {
			return t.Kind == sqltoken.SingleQuotedString && str(t) == x.String
		}, true
	case *sqlast.NationalStringLiteral:
		return x.Pos(), x.End(), func(t *sqltoken.Token) bool {
			return t.Kind == sqltoken.NationalStringLiteral && str(t) == x.String
		}, true
	case *sqlast.BooleanValue:
		return x.Pos(), x.End(), func(t *sqltoken.Token) bool {
			return strings.EqualFold(word(t), strconv.FormatBool(x.Boolean))
		}, true
	case *sqlast.NullValue:
		return x.Pos(), x.End(), func(t *sqltoken.Token) bool { return strings.EqualFold(word(t), "NULL") }, true
	}
	return
}

func searchC15(s *search) {
	gd := dialects[0].d
	eachText(s, func(g *sqlGen, ts []string) {
		ts = noSemi(ts)
		if g.r.Intn(2) == 0 { // tokens whose end is not their start plus their length
			ts = append([]string{}, ts...)
			for k := 0; k < 2 && len(ts) > 0; k++ {
				i := g.r.Intn(len(ts))
				switch {
				case plainWord(ts[i]) && ts[i] != strings.ToUpper(ts[i]):
					ts[i] = []string{"\"\u00e9\u00e9\"", "\"a\tb\"", "\"a\nb\"", "`c d`"}[g.r.Intn(4)]
				case ts[i][0] == '\'':
					ts[i] = []string{"'\u00e9'", "'a\tb'", "'a\nb'", "'a''b'"}[g.r.Intn(4)]
				}
			}
		}
		text := strings.Join(ts, " ")
		if g.r.Intn(2) == 0 {
			text = g.layout(ts)
		}
		comment := g.r.Intn(2) == 0
		var res interface{}
		var err error
		if guard(func() { res, err = run(entryOf("ParseSQL"), text, gd, comment) }) != nil || err != nil {
			return
		}
		raw, _, ok := significant(text)
		if !ok {
			return
		}
		for _, st := range res.([]sqlast.Stmt) {
			allNodes(reflect.ValueOf(st), func(n sqlast.Node) {
				from, to, is, ok := leafOf(n)
				if !ok {
					return
				}
				for _, t := range raw {
					if t.From == from && t.To == to && is(t) {
						return
					}
				}
				found("ParseSQL(%q), %s: %s reports %v-%v, which is not where its token stands", text, mode(comment), dump(n), from, to)
			})
		}
	})
}

// ---------- C16 ----------

func fold(s string, r *rand.Rand, how int) string {
	switch how {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

func plainWord(t string) bool {
	return wordStart(t[0]) && !strings.Contains(t, "'")
}

func identAt(st interface{}, from sqltoken.Pos) bool {
	yes := false
	allNodes(reflect.ValueOf(st), func(n sqlast.Node) {
		if i, ok := n.(*sqlast.Ident); ok && i.From == from {
			yes = true
		}
	})
	return yes
}

func searchC16(s *search) {
	gd := dialects[0].d
	kws := []string{"SELECT", "From", "where", "NULL", "AS", "ON", "true", "case", "JOIN", "interval", "NOT", "END", "and", "IN", "x y"}
	eachText(s, func(g *sqlGen, ts []string) {
		ts = noSemi(ts)
		if len(ts) == 0 {
			return
		}
		text := strings.Join(ts, " ")
		want, ok := outcome(entryOf("ParseSQL"), text, gd, false)
		if want == "a panic" {
			return
		}
		// keyword case
		cs := append([]string{}, ts...)
		how := g.r.Intn(3)
		for i, t := range cs {
			if plainWord(t) {
				cs[i] = fold(t, g.r, how)
			}
		}
		other := strings.Join(cs, " ")
		got, _ := outcome(entryOf("ParseSQL"), other, gd, false)
		if !strings.EqualFold(got, want) {
			found("ParseSQL(%q) yields %s\nParseSQL(%q), which differs only in letter case, yields %s", text, clip(want), other, clip(got))
		}
		if !ok {
			return
		}
		var st interface{}
		if guard(func() { st, _ = run(entryOf("ParseSQL"), text, gd, false) }) != nil {
			return
		}
		raw, _, ok := significant(text)
		if !ok || len(raw) != len(ts) {
			return
		}
		for k := 0; k < 3; k++ {
			i := g.r.Intn(len(ts))
			if !plainWord(ts[i]) {
				continue
			}
			q := append([]string{}, ts...)
			if identAt(st, raw[i].From) {
				w := "\"" + kws[g.r.Intn(len(kws))] + "\""
				q[i] = w
				t2 := strings.Join(q, " ")
				got, _ := outcome(entryOf("ParseSQL"), t2, gd, false)
				if w2 := renamed(st, raw[i].From, w); got != w2 {
					found("ParseSQL(%q) yields %s\nwith the name %s replaced by %s, ParseSQL(%q) yields %s\nwant %s", text, clip(want), ts[i], w, t2, clip(got), clip(w2))
				}
				continue
			}
			// a keyword in quotes is a name
			w := "\"" + ts[i] + "\""
			q[i] = w
			t2 := strings.Join(q, " ")
			got, ok := outcome(entryOf("ParseSQL"), t2, gd, false)
			if ok && !strings.Contains(got, fmt.Sprintf("%q", w)) {
				found("ParseSQL(%q) succeeds, but the delimited identifier %s is not in the tree: %s", t2, w, clip(got))
			}
		}
	})
}

// renamed: the shape of st with the identifier at from renamed.
func renamed(st interface{}, from sqltoken.Pos, w string) string {
	var b strings.Builder
	shapeV(&b, reflect.ValueOf(st), func(v reflect.Value) (string, bool) {
		if i, ok := v.Interface().(sqlast.Ident); ok && i.From == from {
			return fmt.Sprintf("Ident{Value:%q }", w), true
		}
		return "", false
	})
	return b.String()
}

// ---------- C17 ----------

func searchC17(s *search) {
	gd := dialects[0].d
	sql := entryOf("ParseSQL")
	type part struct {
		ts    []string
		shape string
	}
	var parts []part
	g := newGen(s.seed)
	collect := func(k int) {
		ts := noSemi(g.next(k))
		if len(ts) == 0 || len(ts) > 60 {
			return
		}
		text := strings.Join(ts, " ")
		_, toks, ok := significant(text)
		if !ok {
			return
		}
		var st sqlast.Stmt
		var err error
		if guard(func() {
			p, e := xsqlparser.NewParser(bytes.NewBufferString(text), gd)
			if e != nil {
				err = e
				return
			}
			st, err = p.ParseStatement()
		}) != nil || err != nil || isNil(st) {
			return
		}
		if parses(st, toks) != "" {
			return
		}
		parts = append(parts, part{ts, shape(st)})
	}
	for k := range g.stmts {
		collect(k)
	}
	if len(parts) == 0 {
		return
	}
	r := g.r
	// a semicolon in the middle of a statement: both halves have to be statements
	alone := func(ts []string) (string, bool) {
		text := strings.Join(ts, " ")
		var st sqlast.Stmt
		var err error
		if guard(func() {
			p, e := xsqlparser.NewParser(bytes.NewBufferString(text), gd)
			if e != nil {
				err = e
				return
			}
			st, err = p.ParseStatement()
		}) != nil || err != nil || isNil(st) {
			return "", false
		}
		if _, toks, ok := significant(text); !ok || parses(st, toks) != "" {
			return "", false
		}
		return shape(st), true
	}
	cut := func(ts []string, i, k int) { // at i, leaving out k tokens
		a, okA := alone(ts[:i])
		b, okB := alone(ts[i+k:])
		text := strings.Join(ts[:i], " ") + " ; " + strings.Join(ts[i+k:], " ")
		for _, c := range []bool{false, true} {
			got, ok := outcome(sql, text, gd, c)
			if got == "a panic" {
				continue
			}
			if okA && okB {
				if want := "[" + a + "," + b + ",]"; got != want {
					found("ParseSQL(%q), %s, yields %s\nits parts alone yield %s", text, mode(c), clip(got), clip(want))
				}
			} else if ok {
				found("ParseSQL(%q), %s, succeeds although what stands on one side of the semicolon is no statement: %s", text, mode(c), clip(got))
			}
		}
	}
	for i := 1; i < 12; i++ {
		for _, p := range parts {
			for k := 0; k < 2; k++ {
				if i+k < len(p.ts) && s.more() {
					cut(p.ts, i, k)
				}
			}
		}
	}
	for k := 0; s.more(); k++ {
		if k%2 == 0 {
			p := parts[r.Intn(len(parts))]
			if len(p.ts) > 1 {
				i := 1 + r.Intn(len(p.ts)-1)
				k := r.Intn(2)
				if i+k < len(p.ts) {
					cut(p.ts, i, k)
				}
			}
		}
		if k%4 == 0 {
			collect(len(g.stmts))
		}
		n := r.Intn(4)
		if k < len(parts) {
			n = 1
		}
		var ps []part
		for i := 0; i < n; i++ {
			if k < len(parts) {
				ps = append(ps, parts[k])
			} else {
				ps = append(ps, parts[r.Intn(len(parts))])
			}
		}
		var ts []string
		want := "["
		for i, p := range ps {
			if i > 0 {
				ts = append(ts, ";")
			}
			ts = append(ts, p.ts...)
			want += p.shape + ","
		}
		want += "]"
		if n > 0 && r.Intn(2) == 0 {
			ts = append(ts, ";")
		}
		if n == 0 {
			continue
		}
		lay := func(ts []string) string {
			if r.Intn(2) == 0 {
				return strings.Join(ts, " ")
			}
			return g.layout(ts)
		}
		for _, c := range []bool{false, true} {
			text := lay(ts)
			if got, _ := outcome(sql, text, gd, c); got != want && got != "a panic" {
				found("ParseSQL(%q), %s, yields %s\nits parts alone yield %s", text, mode(c), clip(got), clip(want))
			}
			// what must be an error
			bad := append([]string{}, ts...)
			why := ""
			switch r.Intn(4) {
			case 0:
				bad = append(bad, ";", ";")
				why = "ends in more than one semicolon"
				if ts[len(ts)-1] == ";" {
					bad = bad[:len(bad)-1]
				}
			case 1:
				bad = append([]string{";"}, bad...)
				why = "begins with a semicolon"
			case 2:
				if bad[len(bad)-1] == ";" {
					bad = bad[:len(bad)-1]
				}
				bad = append(bad, ")")
				why = "has a parenthesis left over"
			case 3:
				i := len(ps[0].ts)
				bad = append(append(append([]string{}, bad[:i]...), ";", ";"), ts[i:]...)
				if n == 1 {
					continue
				}
				bad = append(append(append([]string{}, ts[:i]...), ";"), ts[i:]...)
				why = "has two semicolons in a row"
			}
			text = lay(bad)
			if got, ok := outcome(sql, text, gd, c); ok {
				found("ParseSQL(%q), %s, succeeds although the text %s: %s", text, mode(c), why, clip(got))
			}
			// statements without a semicolon between them are not a script of several statements
			if n > 1 {
				glued := append(append([]string{}, ps[0].ts...), ps[1].ts...)
				text = lay(glued)
				var res interface{}
				var err error
				if guard(func() { res, err = run(sql, text, gd, c) }) == nil && err == nil {
					if l := res.([]sqlast.Stmt); len(l) != 1 {
						found("ParseSQL(%q), %s, returns %d statements although the text has no semicolon", text, mode(c), len(l))
					}
				}
			}
		}
	}
}

var _ = sort.Strings
