package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

func init() { searches["C10"] = searchC10 }

// kids: the non-nil children of n in field order; lists separately, to compare their order.
func kidsOf(n sqlast.Node) (names []string, kids [][]sqlast.Node) {
	v := reflect.ValueOf(n).Elem()
	for _, i := range kidFields(v.Type()) {
		f := v.Field(i)
		var ks []sqlast.Node
		if f.Kind() == reflect.Slice {
			for j := 0; j < f.Len(); j++ {
				if e := f.Index(j); !e.IsNil() {
					ks = append(ks, e.Interface().(sqlast.Node))
				}
			}
		} else if !f.IsNil() {
			ks = []sqlast.Node{f.Interface().(sqlast.Node)}
		}
		names = append(names, v.Type().Field(i).Name)
		kids = append(kids, ks)
	}
	return
}

type recVisitor struct {
	s    *walkRec
	node sqlast.Node // node this visitor was returned for
	got  []sqlast.Node
}

type walkRec struct {
	r    *rand.Rand
	all  []*recVisitor
	skip map[sqlast.Node]bool
}

func (v *recVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	v.got = append(v.got, n)
	if n == nil {
		return nil
	}
	if v.s.r.Intn(12) == 0 {
		v.s.skip[n] = true
		return nil
	}
	w := &recVisitor{s: v.s, node: n}
	v.s.all = append(v.s.all, w)
	return w
}

func tname(n sqlast.Node) string { return fmt.Sprintf("%T", n) }

func checkVisited(v *recVisitor) string {
	if len(v.got) == 0 || v.got[len(v.got)-1] != nil {
		return "the walk of " + tname(v.node) + " does not end with Visit(nil)"
	}
	return sameKids(v.node, v.got[:len(v.got)-1])
}

func sameKids(n sqlast.Node, got []sqlast.Node) string {
	ns, ks := kidsOf(n)
	where := map[sqlast.Node]int{}
	total := 0
	for i, l := range ks {
		for _, k := range l {
			where[k] = i
			total++
		}
	}
	per := make([][]sqlast.Node, len(ks))
	for _, g := range got {
		if g == nil {
			return tname(n) + ": nil is visited before the end"
		}
		i, ok := where[g]
		if !ok {
			return fmt.Sprintf("%s: visits %s, which is not one of its children", tname(n), dump(g))
		}
		per[i] = append(per[i], g)
	}
	for i := range ks {
		if len(per[i]) != len(ks[i]) {
			return fmt.Sprintf("%s: field %s has %d children, %d were visited", tname(n), ns[i], len(ks[i]), len(per[i]))
		}
		for j := range ks[i] {
			if per[i][j] != ks[i][j] {
				return fmt.Sprintf("%s: children in %s visited out of order", tname(n), ns[i])
			}
		}
	}
	return ""
}

func searchC10(s *search) {
	r := rand.New(rand.NewSource(s.seed + 3))
	eachTree(s, func(name string, n sqlast.Node) {
		rec := &walkRec{r: r, skip: map[sqlast.Node]bool{}}
		v0 := &recVisitor{s: rec}
		if p := guard(func() { sqlast.Walk(v0, n) }); p != nil {
			found("Walk panics: %v\ntree: %s", p, dump(n))
		}
		if len(v0.got) != 1 || v0.got[0] != n {
			found("Walk does not call Visit once with the root on the given visitor (%d calls)\ntree: %s", len(v0.got), dump(n))
		}
		for _, v := range rec.all {
			if why := checkVisited(v); why != "" {
				found("Walk: %s\ntree: %s", why, dump(n))
			}
		}
		// Inspect
		var stack []sqlast.Node
		got := map[sqlast.Node][]sqlast.Node{}
		var bad string
		ended := map[sqlast.Node]bool{}
		if p := guard(func() {
			sqlast.Inspect(n, func(m sqlast.Node) bool {
				if m == nil {
					if len(stack) == 0 {
						bad = "f(nil) without an open node"
						return false
					}
					ended[stack[len(stack)-1]] = true
					stack = stack[:len(stack)-1]
					return r.Intn(2) == 0
				}
				if len(stack) > 0 {
					p := stack[len(stack)-1]
					got[p] = append(got[p], m)
				}
				if r.Intn(12) == 0 {
					return false
				}
				stack = append(stack, m)
				if _, ok := got[m]; !ok {
					got[m] = nil
				}
				return true
			})
		}); p != nil {
			found("Inspect panics: %v\ntree: %s", p, dump(n))
		}
		if bad == "" && len(stack) > 0 {
			bad = "no f(nil) after the children of " + tname(stack[len(stack)-1])
		}
		if bad == "" {
			for m, g := range got {
				if bad = sameKids(m, g); bad != "" {
					break
				}
			}
		}
		if bad != "" {
			found("Inspect: %s\ntree: %s", bad, dump(n))
		}
	})
}

var _ = strings.Join
