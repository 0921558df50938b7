package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"gspec"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

var gram *gspec.Grammar

func loadGrammar() {
	gram = gspec.Load(filepath.Join(os.Getenv("VERIF_DIR"), "contracts", "grammar.spec"))
}

var nodeIface = reflect.TypeOf((*sqlast.Node)(nil)).Elem()
var posType = reflect.TypeOf(sqltoken.Pos{})
var timeType = reflect.TypeOf(time.Time{})

// isNodeField: the field type holds a node (interface or pointer implementing Node)
func isNodeT(t reflect.Type) bool {
	return (t.Kind() == reflect.Interface || t.Kind() == reflect.Ptr) && t.Implements(nodeIface)
}

func isNodeListT(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && isNodeT(t.Elem())
}

// kids: fields of a node struct that hold child nodes, in declaration order
func kidFields(t reflect.Type) []int {
	var out []int
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous || f.PkgPath != "" {
			continue
		}
		if isNodeT(f.Type) || isNodeListT(f.Type) {
			if f.Type.Kind() == reflect.Slice && f.Type.Elem() == reflect.TypeOf((*sqlast.CommentGroup)(nil)) {
				continue
			}
			out = append(out, i)
		}
	}
	return out
}

type fieldUse struct {
	cond   string // nn len bool eq or ""
	min1   bool
	term   string
	eq     []string
	always bool
}

// treeGen builds random well-formed trees.
type treeGen struct {
	r      *rand.Rand
	budget int
	noRaw  bool
	pos    bool
	expr   bool // Node fields hold expressions
	allow  func(name string) bool
}

func names() []string {
	var ns []string
	for _, n := range gram.Names {
		if registry[n] != nil {
			ns = append(ns, n)
		}
	}
	return ns
}

// simple leaf types by interface, to stop recursion
var leafPref = []string{"Ident", "LongValue", "CurrentRow", "Int", "NotNullColumnSpec", "WildcardSelectItem", "Table", "UnionOperator", "JoinCondition", "SelectExpr", "DropIndexStmt", "ConstructorSource", "DropDefaultColumnAction", "RemoveColumnTableAction", "UniqueTableConstraint", "ColumnDef", "MyEngine", "AutoIncrement"}

func (g *treeGen) iface(t reflect.Type) reflect.Value {
	var cands []string
	if g.budget <= 0 {
		for _, n := range leafPref {
			if rt := registry[n]; rt != nil && reflect.PtrTo(rt).Implements(t) && (g.allow == nil || g.allow(n)) {
				return g.node(n)
			}
		}
	}
	for _, n := range names() {
		if gram.Rules[n].Flags["comment"] || n == "File" && t == nodeIface {
			continue
		}
		if g.noRaw && gram.Rules[n].Flags["raw"] {
			continue
		}
		if g.expr && !g.fits(t, n) {
			continue
		}
		if g.allow != nil && !g.allow(n) {
			continue
		}
		if reflect.PtrTo(registry[n]).Implements(t) {
			cands = append(cands, n)
		}
	}
	if len(cands) == 0 {
		panic("no implementation of " + t.String())
	}
	if g.expr && t == nodeIface && g.r.Intn(3) == 0 {
		return g.node("Ident")
	}
	return g.node(cands[g.r.Intn(len(cands))])
}

// fits: n is one of the nodes the parser puts into fields of type t
func (g *treeGen) fits(t reflect.Type, n string) bool {
	switch t.Name() {
	case "Node":
		return exprNodes[n]
	case "Type":
		return typeNodes[n]
	case "ColumnConstraintSpec":
		return strings.HasSuffix(n, "ColumnSpec")
	}
	return n != "PartitionedJoinTable"
}

var identPool = []string{"a", "b", "c1", "tbl", "x_y", "\"Qu oted\"", "\"select\"", "zz", "col", "k", "sum", "t_1"}

func (g *treeGen) str() string {
	alphabet := []string{"a", "Z", " ", "'", "''", "--", "/*", "\"", "é", "\n", "\t", "%", ";", "0", "\\"}
	n := g.r.Intn(5)
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[g.r.Intn(len(alphabet))]
	}
	return s
}

func (g *treeGen) node(name string) reflect.Value {
	g.budget--
	t := registry[name]
	r := gram.Rules[name]
	p := reflect.New(t)
	v := p.Elem()
	uses := map[string]*fieldUse{}
	get := func(f string) *fieldUse {
		if uses[f] == nil {
			uses[f] = &fieldUse{}
		}
		return uses[f]
	}
	// first decide conditions, then fill what the chosen branches need
	need := map[string]bool{}
	decided := map[string]bool{}
	var eachPairs [][]string
	var walk func(es []*gspec.Elem)
	walk = func(es []*gspec.Elem) {
		eqs := map[string][]string{}
		var eqDeref = map[string]bool{}
		for _, e := range es {
			if e.Kind == "if" && e.Cond.Kind == "eq" {
				eqs[e.Cond.Ref.Field] = append(eqs[e.Cond.Ref.Field], e.Cond.Const)
				eqDeref[e.Cond.Ref.Field] = e.Cond.Ref.Deref
			}
		}
		var fs []string
		for f := range eqs {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			if !decided[f] {
				decided[f] = true
				c := eqs[f][g.r.Intn(len(eqs[f]))]
				fv := v.FieldByName(f)
				fv.SetInt(enums[c])
			}
		}
		for _, e := range es {
			switch e.Kind {
			case "child":
				if e.Ref.Field != "1" && e.Ref.Field != "2" {
					need[e.Ref.Field] = true
				}
			case "term":
				if e.Ref.Field != "1" {
					get(e.Ref.Field).term = e.Term
					need[e.Ref.Field] = true
				}
			case "each":
				for _, f := range e.Refs {
					if e.Min1 {
						get(f.Field).min1 = true
					}
					need[f.Field] = true
				}
				if len(e.Refs) > 1 {
					var s []string
					for _, f := range e.Refs {
						s = append(s, f.Field)
					}
					eachPairs = append(eachPairs, s)
				}
			case "if":
				if e.Cond.Ref.Field == "1" {
					continue
				}
				yes := g.r.Intn(2) == 0
				f := v.FieldByName(e.Cond.Ref.Field)
				switch e.Cond.Kind {
				case "bool":
					if e.Cond.Ref.Deref {
						if f.IsNil() {
							f.Set(reflect.New(f.Type().Elem()))
						}
						f = f.Elem()
						yes = f.Bool()
						if !decided["*"+e.Cond.Ref.Field] {
							decided["*"+e.Cond.Ref.Field] = true
							yes = g.r.Intn(2) == 0
							f.SetBool(yes)
						}
					} else if decided[e.Cond.Ref.Field] {
						yes = f.Bool()
					} else {
						decided[e.Cond.Ref.Field] = true
						f.SetBool(yes)
					}
				case "nn":
					if yes {
						need[e.Cond.Ref.Field] = true
					}
				case "len":
					if yes {
						get(e.Cond.Ref.Field).min1 = true
						need[e.Cond.Ref.Field] = true
					}
				case "eq":
					yes = f.Int() == enums[e.Cond.Const]
				}
				if yes != e.Cond.Neg {
					walk(e.Then)
				} else {
					walk(e.Else)
				}
			case "alt":
				for _, a := range e.Alts {
					walk(a)
				}
			case "opt":
				walk(e.Then)
			}
		}
	}
	walk(r.Body)
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Anonymous || sf.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		if sf.Type == posType {
			if g.pos {
				fv.Set(reflect.ValueOf(sqltoken.NewPos(1+g.r.Intn(9), 1+g.r.Intn(40))))
			}
			continue
		}
		if !need[sf.Name] {
			continue
		}
		u := get(sf.Name)
		switch {
		case isNodeT(sf.Type) && sf.Type.Kind() == reflect.Interface:
			fv.Set(g.iface(sf.Type))
		case isNodeT(sf.Type):
			fv.Set(g.ptr(sf.Type))
		case sf.Type.Kind() == reflect.Slice:
			n := g.r.Intn(3)
			if g.budget <= 0 {
				n = 0
			}
			if u.min1 {
				n++
			}
			l := reflect.MakeSlice(sf.Type, 0, n+g.r.Intn(2))
			for k := 0; k < n; k++ {
				et := sf.Type.Elem()
				switch {
				case isNodeT(et) && et.Kind() == reflect.Interface:
					l = reflect.Append(l, g.iface(et))
				case isNodeT(et):
					l = reflect.Append(l, g.ptr(et))
				case et.Kind() == reflect.Ptr && et.Elem().Kind() == reflect.String:
					if g.r.Intn(3) == 0 {
						l = reflect.Append(l, reflect.Zero(et))
					} else {
						s := []string{"", "abc", "1", "x y"}[g.r.Intn(4)]
						l = reflect.Append(l, reflect.ValueOf(&s))
					}
				default:
					panic("list of " + et.String())
				}
			}
			if n > 0 || g.r.Intn(4) == 0 {
				fv.Set(l)
			}
		default:
			if sf.Type.Kind() == reflect.Ptr {
				if fv.IsNil() {
					fv.Set(reflect.New(sf.Type.Elem()))
				}
				if sf.Type.Elem().Kind() == reflect.Bool {
					continue
				}
				fv = fv.Elem()
			}
			g.scalar(fv, u.term)
		}
	}
	if g.expr && (name == "BinaryExpr" || name == "UnaryExpr") {
		ops := []string{"Or", "And", "Like", "NotLike", "Gt", "LtEq", "Eq", "NotEq", "Plus", "Minus", "Multiply", "Divide", "Modulus"}
		if name == "UnaryExpr" {
			ops = []string{"Not", "Plus", "Minus"}
		}
		v.FieldByName("Op").Elem().FieldByName("Type").SetInt(enums[ops[g.r.Intn(len(ops))]])
	}
	if g.expr && name == "LimitExpr" {
		v.FieldByName("All").SetBool(false)
		if v.FieldByName("LimitValue").IsNil() {
			v.FieldByName("LimitValue").Set(g.node("LongValue"))
		}
	}
	for _, pr := range eachPairs {
		a, b := v.FieldByName(pr[0]), v.FieldByName(pr[1])
		n := a.Len()
		if b.Len() < n {
			n = b.Len()
		}
		a.SetLen(n)
		b.SetLen(n)
	}
	return p
}

func (g *treeGen) ptr(t reflect.Type) reflect.Value {
	n := t.Elem().Name()
	if registry[n] == nil {
		panic("unknown node type " + t.String())
	}
	return g.node(n)
}

func (g *treeGen) scalar(v reflect.Value, term string) {
	switch {
	case v.Type() == timeType:
		v.Set(reflect.ValueOf(time.Date(1990+g.r.Intn(50), time.Month(1+g.r.Intn(12)), 1+g.r.Intn(28), g.r.Intn(24), g.r.Intn(60), g.r.Intn(60), 0, time.UTC)))
	case v.Kind() == reflect.String:
		switch term {
		case "id":
			v.SetString(identPool[g.r.Intn(len(identPool))])
		case "raw":
			v.SetString([]string{"-- c", "/* d */", "", "-- e e"}[g.r.Intn(4)])
		default:
			v.SetString(g.str())
		}
	case v.Kind() == reflect.Float64:
		v.SetFloat([]float64{0, 1, 1.5, 10.25, 100000000000000000000000, 0.001}[g.r.Intn(6)])
	case v.Kind() == reflect.Bool:
		v.SetBool(g.r.Intn(2) == 0)
	case v.CanInt():
		v.SetInt([]int64{0, 1, 2, 7, 10, 255, 99999}[g.r.Intn(7)])
	case v.CanUint():
		v.SetUint([]uint64{0, 1, 2, 7, 10, 255, 99999}[g.r.Intn(7)])
	default:
		panic("scalar " + v.Type().String())
	}
}

// ---------- dumping ----------

func dump(x interface{}) string {
	var b strings.Builder
	dumpV(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func dumpV(b *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			b.WriteString("&")
		}
		dumpV(b, v.Elem(), d)
	case reflect.Struct:
		if v.Type() == posType {
			fmt.Fprintf(b, "%d:%d", v.Field(0).Int(), v.Field(1).Int())
			return
		}
		if v.Type() == timeType {
			b.WriteString(v.Interface().(time.Time).String())
			return
		}
		b.WriteString(v.Type().Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Anonymous || f.IsZero() {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			b.WriteString(v.Type().Field(i).Name + ": ")
			dumpV(b, f, d+1)
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			dumpV(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}
