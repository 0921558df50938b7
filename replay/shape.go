package main

// Replay for C02: random chains of operators, grouped by a reference reading of the property
// and compared with the grouping of the tree the parser builds.

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// opItem: one operator as it may stand after an operand.
type opItem struct {
	words string
	prec  int
	kind  int // 0 binary, 1 postfix, 2 BETWEEN, 3 list
}

var chainOps = []opItem{
	{"OR", 5, 0}, {"AND", 10, 0}, {"IS NULL", 17, 1}, {"IS NOT NULL", 17, 1},
	{"=", 20, 0}, {"!=", 20, 0}, {"<>", 20, 0}, {"<", 20, 0}, {"<=", 20, 0}, {">", 20, 0}, {">=", 20, 0},
	{"LIKE", 20, 0}, {"NOT LIKE", 20, 0}, {"BETWEEN", 20, 2}, {"NOT BETWEEN", 20, 2}, {"IN", 20, 3}, {"NOT IN", 20, 3},
	{"+", 30, 0}, {"-", 30, 0}, {"*", 40, 0}, {"/", 40, 0}, {"%", 40, 0}, {"::int", 50, 1}, {"::text", 50, 1},
}

var prefixOps = []opItem{{"NOT", 15, 0}, {"+", 30, 0}, {"-", 30, 0}}

// piece: an element of a chain: an operand (word, possibly with its own shape) or an operator.
type piece struct {
	word, shape string
	op          *opItem
	prefix      bool
	list        []string // the text of a list, its shape
}

type chain struct {
	ps []piece
	i  int
}

func (c *chain) peek() *piece {
	if c.i < len(c.ps) {
		return &c.ps[c.i]
	}
	return nil
}

// group reads the operand at the front and every operator that binds tighter than q.
func (c *chain) group(q int) string {
	p := c.peek()
	c.i++
	var l string
	if p.prefix {
		l = "(" + p.op.words + " " + c.group(p.op.prec) + ")"
	} else {
		l = p.shape
	}
	for {
		p := c.peek()
		if p == nil || p.op == nil || p.op.prec <= q || p.word == "and" {
			return l
		}
		c.i++
		switch p.op.kind {
		case 0:
			l = "(" + l + " " + p.op.words + " " + c.group(p.op.prec) + ")"
		case 1:
			l = "(" + l + " " + p.op.words + ")"
		case 2:
			lo := c.group(20)
			c.i++
			l = "(" + l + " " + p.op.words + " " + lo + " & " + c.group(20) + ")"
		case 3:
			l = "(" + l + " " + p.op.words + " [" + p.list[1] + "])"
		}
	}
}

// genChain makes a chain of up to n operators; the text and its grouping.
func (g *sqlGen) genChain(n, depth int, plain bool) (text, shape string) {
	r := g.r
	var ps []piece
	var b []string
	operand := func() {
		for !plain && r.Intn(6) == 0 || plain && r.Intn(6) == 0 {
			o := &prefixOps[r.Intn(3)]
			if plain {
				o = &prefixOps[1+r.Intn(2)]
			}
			ps = append(ps, piece{op: o, prefix: true})
			b = append(b, o.words)
		}
		if depth > 0 && r.Intn(6) == 0 {
			t, s := g.genChain(r.Intn(3), depth-1, false)
			ps = append(ps, piece{shape: "{" + s + "}"})
			b = append(b, "(", t, ")")
			return
		}
		w := string(rune('a' + r.Intn(6)))
		ps = append(ps, piece{shape: w})
		b = append(b, w)
	}
	operand()
	for k := 0; k < n; k++ {
		o := &chainOps[r.Intn(len(chainOps))]
		if plain && (strings.Contains(o.words, "N") || strings.Contains(o.words, "IS")) {
			o = &chainOps[17+r.Intn(7)]
		}
		b = append(b, o.words)
		switch o.kind {
		case 0:
			ps = append(ps, piece{op: o})
			operand()
		case 1:
			ps = append(ps, piece{op: o})
		case 2:
			ps = append(ps, piece{op: o})
			// the lower bound holds operators tighter than BETWEEN only
			operand()
			for r.Intn(3) == 0 {
				t := &chainOps[17+r.Intn(7)]
				ps = append(ps, piece{op: t})
				b = append(b, t.words)
				if t.kind == 0 {
					operand()
				}
			}
			ps = append(ps, piece{op: o, word: "and"})
			b = append(b, "AND")
			operand()
		case 3:
			t1, s1 := g.genChain(r.Intn(2), 0, false)
			t2, s2 := g.genChain(r.Intn(2), 0, false)
			ps = append(ps, piece{op: o, list: []string{"", s1 + "," + s2}})
			b = append(b, "(", t1, ",", t2, ")")
		}
	}
	c := &chain{ps: ps}
	shape = c.group(0)
	if c.i != len(c.ps) {
		shape = "" // a NOT in the lower bound of a BETWEEN: the text means something else
	}
	return strings.Join(b, " "), shape
}

var opWords = map[sqlast.OperatorType]string{
	sqlast.Or: "OR", sqlast.And: "AND", sqlast.Eq: "=", sqlast.NotEq: "!=", sqlast.Lt: "<", sqlast.LtEq: "<=", sqlast.Gt: ">", sqlast.GtEq: ">=",
	sqlast.Like: "LIKE", sqlast.NotLike: "NOT LIKE", sqlast.Plus: "+", sqlast.Minus: "-", sqlast.Multiply: "*", sqlast.Divide: "/", sqlast.Modulus: "%", sqlast.Not: "NOT",
}

func shapeOf(n sqlast.Node) string {
	not := func(b bool) string {
		if b {
			return "NOT "
		}
		return ""
	}
	switch x := n.(type) {
	case *sqlast.Ident:
		return x.Value
	case *sqlast.Nested:
		return "{" + shapeOf(x.AST) + "}"
	case *sqlast.BinaryExpr:
		return "(" + shapeOf(x.Left) + " " + opWords[x.Op.Type] + " " + shapeOf(x.Right) + ")"
	case *sqlast.UnaryExpr:
		return "(" + opWords[x.Op.Type] + " " + shapeOf(x.Expr) + ")"
	case *sqlast.IsNull:
		return "(" + shapeOf(x.X) + " IS NULL)"
	case *sqlast.IsNotNull:
		return "(" + shapeOf(x.X) + " IS NOT NULL)"
	case *sqlast.Between:
		return "(" + shapeOf(x.Expr) + " " + not(x.Negated) + "BETWEEN " + shapeOf(x.Low) + " & " + shapeOf(x.High) + ")"
	case *sqlast.InList:
		var l []string
		for _, e := range x.List {
			l = append(l, shapeOf(e))
		}
		return "(" + shapeOf(x.Expr) + " " + not(x.Negated) + "IN [" + strings.Join(l, ",") + "])"
	case *sqlast.Cast:
		t := "int"
		if !strings.Contains(fmt.Sprintf("%T", x.DataType), "Int") {
			t = "text"
		}
		return "(" + shapeOf(x.Expr) + " ::" + t + ")"
	}
	return fmt.Sprintf("%T", n)
}

func setShape(n sqlast.SQLSetExpr) string {
	switch x := n.(type) {
	case *sqlast.SelectExpr:
		return setShape(x.Select)
	case *sqlast.SQLSelect:
		return x.Projection[0].ToSQLString()
	case *sqlast.QueryExpr:
		return "{" + setShape(x.Query.Body) + "}"
	case *sqlast.SetOperationExpr:
		w := "UNION"
		switch x.Op.(type) {
		case *sqlast.ExceptOperator:
			w = "EXCEPT"
		case *sqlast.IntersectOperator:
			w = "INTERSECT"
		}
		if x.All {
			w += " ALL"
		}
		return "(" + setShape(x.Left) + " " + w + " " + setShape(x.Right) + ")"
	}
	return fmt.Sprintf("%T", n)
}

// genSets makes a chain of set operations.
func (g *sqlGen) genSets(n, depth int) (text, shape string) {
	r := g.r
	var ps []piece
	var b []string
	operand := func() {
		if depth > 0 && r.Intn(5) == 0 {
			t, s := g.genSets(r.Intn(3), depth-1)
			ps = append(ps, piece{shape: "{" + s + "}"})
			b = append(b, "(", t, ")")
			return
		}
		w := string(rune('a' + r.Intn(6)))
		ps = append(ps, piece{shape: w})
		b = append(b, "SELECT", w)
	}
	operand()
	for k := 0; k < n; k++ {
		o := opItem{[]string{"UNION", "EXCEPT", "INTERSECT"}[r.Intn(3)], 10, 0}
		if o.words == "INTERSECT" {
			o.prec = 20
		}
		if r.Intn(3) == 0 {
			o.words += " ALL"
		}
		b = append(b, o.words)
		ps = append(ps, piece{op: &o})
		operand()
	}
	c := &chain{ps: ps}
	return strings.Join(b, " "), c.group(0)
}

// searchShape: random chains in the entry points that read them.
func searchShape(s *search) {
	gd := dialects[0].d
	g := newGen(s.seed)
	for k := 0; k < 60000 && s.more(); k++ {
		var text, want, got, name string
		n := 1 + g.r.Intn(4)
		var res interface{}
		var err error
		switch k % 4 {
		case 0, 1:
			name = "ParseExpr"
			text, want = g.genChain(n, 1, false)
			if guard(func() { res, err = run(entryOf(name), text, gd, false) }) != nil || err != nil {
				continue
			}
			got = shapeOf(res.(sqlast.Node))
		case 2:
			name = "ParseSQL"
			text, want = g.genSets(n, 1)
			if guard(func() { res, err = run(entryOf(name), text, gd, false) }) != nil || err != nil {
				continue
			}
			if q, ok := res.([]sqlast.Stmt)[0].(*sqlast.QueryStmt); ok {
				got = setShape(q.Body)
			}
		default:
			name = "ParseSQL"
			text, want = g.genChain(n, 1, true)
			text = "CREATE TABLE t (x int DEFAULT " + text + ")"
			if guard(func() { res, err = run(entryOf(name), text, gd, false) }) != nil || err != nil {
				continue
			}
			if c, ok := res.([]sqlast.Stmt)[0].(*sqlast.CreateTableStmt); ok && len(c.Elements) == 1 {
				if d, ok := c.Elements[0].(*sqlast.ColumnDef); ok && d.Default != nil {
					got = shapeOf(d.Default)
				}
			}
		}
		want = strings.ReplaceAll(want, "<>", "!=")
		if want != "" && got != "" && got != want {
			found("%s(%q) groups wrongly: the tree is %s, by the strengths of the operators it is %s", name, text, got, want)
		}
	}
}
