package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

func init() {
	searches["C08"] = searchC08
	searches["C09"] = searchC09
	searches["C14"] = searchC14
}

// eachTree calls f on random trees of every node type.
func eachTree(s *search, f func(name string, n sqlast.Node)) {
	r := rand.New(rand.NewSource(s.seed))
	ns := names()
	// types named in the failed obligations first
	var hinted []string
	for _, n := range ns {
		if strings.Contains(s.hints, "."+n+")") || strings.Contains(s.hints, "."+n+" ") {
			hinted = append(hinted, n)
		}
	}
	for round := 0; s.more(); round++ {
		list := ns
		if len(hinted) > 0 && round%3 != 0 {
			list = hinted
		}
		for _, n := range list {
			for k := 0; k < 3; k++ {
				g := &treeGen{r: r, budget: r.Intn(12) + round%20, noRaw: true, pos: true}
				f(n, g.node(n).Interface().(sqlast.Node))
			}
		}
	}
}

// textOracle: what is wrong with text as the printed form of n ("" if nothing).
func textOracle(n sqlast.Node, text string) string {
	switch x := n.(type) {
	case *sqlast.Comment:
		if text != x.Text {
			return "comment text changed"
		}
		return ""
	case *sqlast.CommentGroup:
		var ss []string
		for _, c := range x.List {
			ss = append(ss, c.Text)
		}
		if text != strings.Join(ss, "\n") {
			return "comment group text differs from its comments joined by newlines"
		}
		return ""
	case *sqlast.CopyStmt:
		i := strings.Index(text, ";")
		if i < 0 {
			return "no semicolon after FROM STDIN"
		}
		ts, bad := lex(text[:i])
		if bad != "" {
			return bad
		}
		h := []string{"COPY"}
		nt, _ := lex(x.TableName.ToSQLString())
		for _, t := range nt {
			h = append(h, t.s)
		}
		if len(x.Columns) > 0 {
			h = append(h, "(")
			for k, c := range x.Columns {
				if k > 0 {
					h = append(h, ",")
				}
				ct, _ := lex(c.Value)
				for _, t := range ct {
					h = append(h, t.s)
				}
			}
			h = append(h, ")")
		}
		h = append(h, "FROM", "STDIN")
		if g := toks(ts); !strings.EqualFold(g, strings.Join(h, " ")) {
			return "header is " + g
		}
		rest := ""
		if len(x.Values) > 0 {
			var vs []string
			for _, v := range x.Values {
				if v == nil {
					vs = append(vs, "\\N")
				} else {
					vs = append(vs, *v)
				}
			}
			rest = "\n" + strings.Join(vs, "\t")
		}
		if strings.TrimLeft(text[i+1:], " ") != rest+"\n\\." {
			return fmt.Sprintf("data part is %q, want %q", text[i+1:], rest+"\n\\.")
		}
		return ""
	}
	ts, bad := lex(text)
	if bad != "" {
		return bad
	}
	return derives(n, ts)
}

func searchC08(s *search) {
	eachTree(s, func(name string, n sqlast.Node) {
		var text string
		if p := guard(func() {
			var b bytes.Buffer
			n.WriteTo(&b)
			text = b.String()
		}); p != nil {
			found("printing panics: %v\ntree: %s", p, dump(n))
		}
		if why := textOracle(n, text); why != "" {
			found("tree:  %s\nprinted: %s\nnot a derivation of the tree: %s", dump(n), text, why)
		}
	})
}

// ---------- C09 ----------

var errDest = errors.New("destination failed")

type limited struct {
	left   int
	total  int
	failed bool
	after  bool
	full   bool // report an error together with a full count
	buf    []byte
}

func (l *limited) Write(p []byte) (int, error) {
	if l.failed {
		l.after = true
		return 0, errors.New("write after error")
	}
	if len(p) <= l.left && !(l.full && len(p) == l.left) {
		l.left -= len(p)
		l.total += len(p)
		l.buf = append(l.buf, p...)
		return len(p), nil
	}
	n := l.left
	if n > len(p) {
		n = len(p)
	}
	l.total += n
	l.buf = append(l.buf, p[:n]...)
	l.failed = true
	return n, errDest
}

type limitedS struct{ limited }

func (l *limitedS) WriteString(s string) (int, error) { return l.Write([]byte(s)) }

func searchC09(s *search) {
	eachTree(s, func(name string, n sqlast.Node) {
		var want string
		var cnt int64
		var err error
		if p := guard(func() {
			var b bytes.Buffer
			cnt, err = n.WriteTo(&b)
			want = b.String()
		}); p != nil {
			found("WriteTo panics: %v\ntree: %s", p, dump(n))
		}
		if err != nil || cnt != int64(len(want)) {
			found("WriteTo to a buffer returned (%d, %v) but wrote %d bytes\ntree: %s", cnt, err, len(want), dump(n))
		}
		if g := n.ToSQLString(); g != want {
			found("ToSQLString returned %q, WriteTo wrote %q\ntree: %s", g, want, dump(n))
		}
		for k := 0; k <= len(want); k++ {
			for v := 0; v < 4; v++ {
				var w io.Writer
				l := &limited{left: k, full: v&2 != 0}
				w = l
				if v&1 != 0 {
					ls := &limitedS{*l}
					l = &ls.limited
					w = ls
				}
				var m int64
				var e error
				if p := guard(func() { m, e = n.WriteTo(w) }); p != nil {
					found("WriteTo panics when the destination fails after %d bytes: %v\ntree: %s", k, p, dump(n))
				}
				if l.after {
					found("WriteTo wrote again after the destination failed (limit %d bytes)\ntree: %s", k, dump(n))
				}
				if l.failed && e != errDest {
					found("destination failed after %d bytes but WriteTo returned error %v\ntree: %s", k, e, dump(n))
				}
				if !l.failed && e != nil {
					found("WriteTo returned error %v though the destination did not fail\ntree: %s", e, dump(n))
				}
				if m != int64(l.total) {
					found("destination failed after %d bytes: WriteTo returned %d, the destination accepted %d\ntree: %s", k, m, l.total, dump(n))
				}
			}
		}
	})
}

// ---------- C14 ----------

// snap records a tree including hidden list capacity.
func snap(b *strings.Builder, v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		snap(b, v.Elem(), seen)
	case reflect.Ptr:
		fmt.Fprintf(b, "%x;", v.Pointer())
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			snap(b, v.Elem(), seen)
		}
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprintf(b, "%v", v.Interface())
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).Anonymous {
				snap(b, v.Field(i), seen)
			}
		}
	case reflect.Slice:
		fmt.Fprintf(b, "[%x %d %d:", v.Pointer(), v.Len(), v.Cap())
		full := v
		if v.Cap() > v.Len() {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			snap(b, full.Index(i), seen)
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "%v;", v)
	}
}

func snapshot(n interface{}) string {
	var b strings.Builder
	snap(&b, reflect.ValueOf(n), map[uintptr]bool{})
	return b.String()
}

func allNodes(v reflect.Value, f func(sqlast.Node)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			allNodes(v.Elem(), f)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if n, ok := v.Interface().(sqlast.Node); ok {
			f(n)
		}
		allNodes(v.Elem(), f)
	case reflect.Struct:
		if v.Type() == timeType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				allNodes(v.Field(i), f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			allNodes(v.Index(i), f)
		}
	}
}

type nullVisitor struct{}

func (n nullVisitor) Visit(sqlast.Node) sqlast.Visitor { return n }

func searchC14(s *search) {
	r := rand.New(rand.NewSource(s.seed + 7))
	eachTree(s, func(name string, n sqlast.Node) {
		check := func(root sqlast.Node, what string, f func()) {
			before := snapshot(root)
			d := dump(root)
			guard(f) // panics are another property's business
			if snapshot(root) != before {
				found("%s changes the tree\nbefore: %s\nafter:  %s", what, d, dump(root))
			}
		}
		check(n, "WriteTo", func() { n.WriteTo(io.Discard) })
		check(n, "ToSQLString", func() { n.ToSQLString() })
		check(n, "Pos/End", func() {
			allNodes(reflect.ValueOf(n), func(m sqlast.Node) { guard(func() { m.Pos() }); guard(func() { m.End() }) })
		})
		check(n, "Walk", func() { sqlast.Walk(nullVisitor{}, n) })
		check(n, "Inspect", func() { sqlast.Inspect(n, func(m sqlast.Node) bool { return r.Intn(4) > 0 }) })
		g := &treeGen{r: r, budget: 6, noRaw: true, pos: true}
		f := g.node("File").Interface().(*sqlast.File)
		for k := r.Intn(3) + 1; k > 0; k-- {
			c := g.node("CommentGroup").Interface().(*sqlast.CommentGroup)
			if r.Intn(5) == 0 {
				c.List = nil
			}
			f.Comments = append(f.Comments, c)
		}
		check(f, "NewCommentMap", func() { sqlast.NewCommentMap(f) })
	})
}
