package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
)

func init() {
	searches["C11"] = searchC11
	searches["C12"] = searchC12
}

type applyFrame struct {
	node sqlast.Node
	name string
	idx  int
	kids []sqlast.Node
}

func searchC11(s *search) {
	r := rand.New(rand.NewSource(s.seed + 5))
	eachTree(s, func(name string, root sqlast.Node) {
		skip, stop := 0, -1
		if r.Intn(2) == 0 {
			skip = 10
		}
		if r.Intn(4) == 0 {
			stop = r.Intn(8)
		}
		withPre, withPost := r.Intn(8) != 0, r.Intn(8) != 0
		bad := ""
		fail := func(f string, a ...interface{}) {
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
		}
		var st []*applyFrame
		place := func(c *sqlastutil.Cursor) {
			n, p := c.Node(), c.Parent()
			if p == nil {
				fail("no parent at %s", tname(n))
				return
			}
			f := reflect.Indirect(reflect.ValueOf(p)).FieldByName(c.Name())
			if !f.IsValid() {
				fail("the parent %s of %s has no field %q", tname(p), tname(n), c.Name())
				return
			}
			if c.Index() >= 0 {
				if f.Kind() != reflect.Slice || c.Index() >= f.Len() {
					fail("%s: field %s has no element %d", tname(p), c.Name(), c.Index())
					return
				}
				f = f.Index(c.Index())
			} else if f.Kind() == reflect.Slice {
				fail("%s: index -1 in list %s", tname(p), c.Name())
				return
			}
			if f.Interface() != interface{}(n) {
				fail("%s: field %s[%d] does not hold the node %s the cursor reports", tname(p), c.Name(), c.Index(), tname(n))
			}
		}
		visits := 0
		stopped := false
		pre := func(c *sqlastutil.Cursor) bool {
			visits++
			place(c)
			if stopped {
				fail("pre is called after post returned false")
			}
			if withPost {
				if len(st) > 0 {
					t := st[len(st)-1]
					if c.Parent() != t.node {
						fail("parent of %s is %s, expected %s", tname(c.Node()), tname(c.Parent()), tname(t.node))
					}
					t.kids = append(t.kids, c.Node())
				} else if c.Node() != root || visits != 1 {
					fail("the first visited node is not the root")
				}
				if skip > 0 && r.Intn(skip) == 0 {
					return false
				}
				st = append(st, &applyFrame{node: c.Node(), name: c.Name(), idx: c.Index()})
			} else if skip > 0 && r.Intn(skip) == 0 {
				return false
			}
			return true
		}
		posts := 0
		post := func(c *sqlastutil.Cursor) bool {
			place(c)
			if stopped {
				fail("post is called after post returned false")
			}
			if withPre {
				if len(st) == 0 {
					fail("post without pre at %s", tname(c.Node()))
					return true
				}
				t := st[len(st)-1]
				st = st[:len(st)-1]
				if t.node != c.Node() || t.name != c.Name() || t.idx != c.Index() {
					fail("post sees %s.%s[%d], pre saw %s.%s[%d]", tname(c.Node()), c.Name(), c.Index(), tname(t.node), t.name, t.idx)
				}
				if why := sameKids(t.node, t.kids); why != "" {
					fail("%s", why)
				}
			}
			posts++
			if stop >= 0 && posts > stop {
				stopped = true
				return false
			}
			return true
		}
		var pf, qf sqlastutil.ApplyFunc
		if withPre {
			pf = pre
		}
		if withPost {
			qf = post
		}
		var res sqlast.Node
		if p := guard(func() { res = sqlastutil.Apply(root, pf, qf) }); p != nil {
			found("Apply panics: %v\ntree: %s", p, dump(root))
		}
		if res != root {
			fail("Apply without edits does not return the root")
		}
		if withPre && withPost && !stopped && len(st) > 0 {
			fail("no post for %s", tname(st[len(st)-1].node))
		}
		if bad != "" {
			found("Apply: %s\ntree: %s", bad, dump(root))
		}
	})
}

type listKey struct {
	p sqlast.Node
	f string
}

type listModel struct {
	list []sqlast.Node // what the list must hold
	orig []sqlast.Node // what it held before the traversal
	next int           // next original to visit
	idx  int
	hist []string
}

func searchC12(s *search) {
	r := rand.New(rand.NewSource(s.seed + 7))
	eachTree(s, func(name string, root sqlast.Node) {
		before := dump(root)
		g := &treeGen{r: r, budget: 1, noRaw: true}
		lists := map[listKey]*listModel{}
		fresh := map[sqlast.Node]bool{}
		hist := ""
		bad := ""
		fail := func(f string, a ...interface{}) {
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
		}
		read := func(k listKey) []sqlast.Node {
			f := reflect.Indirect(reflect.ValueOf(k.p)).FieldByName(k.f)
			var l []sqlast.Node
			for i := 0; i < f.Len(); i++ {
				if f.Index(i).IsNil() {
					l = append(l, nil)
				} else {
					l = append(l, f.Index(i).Interface().(sqlast.Node))
				}
			}
			return l
		}
		same := func(k listKey, m *listModel) {
			l := read(k)
			ok := len(l) == len(m.list)
			for i := 0; ok && i < len(l); i++ {
				ok = l[i] == m.list[i]
			}
			if !ok {
				fail("list %s.%s holds %d elements %v, expected %d elements %v (edits: %s)", tname(k.p), k.f, len(l), names1(l), len(m.list), names1(m.list), hist)
			}
		}
		newElem := func(t reflect.Type) sqlast.Node {
			g.budget = 1
			var v reflect.Value
			if t.Kind() == reflect.Interface {
				v = g.iface(t)
			} else {
				v = g.ptr(t)
			}
			n := v.Interface().(sqlast.Node)
			fresh[n] = true
			return n
		}
		edits := func(c *sqlastutil.Cursor, when string) {
			k := listKey{c.Parent(), c.Name()}
			n := c.Node()
			f := reflect.Indirect(reflect.ValueOf(k.p)).FieldByName(k.f)
			if !f.IsValid() {
				return
			}
			m := lists[k]
			for c.Index() >= 0 && m != nil && r.Intn(3) == 0 && bad == "" {
				op := r.Intn(4)
				i := m.idx
				hist += fmt.Sprintf(" %s(%s[%d] of %d, %s)", [...]string{"Replace", "InsertBefore", "InsertAfter", "Delete"}[op], k.f, i, len(m.list), when)
				var p interface{}
				switch op {
				case 0:
					e := newElem(f.Type().Elem())
					p = guard(func() { c.Replace(e) })
					m.list[i] = e
				case 1:
					e := newElem(f.Type().Elem())
					p = guard(func() { c.InsertBefore(e) })
					m.list = append(append(append([]sqlast.Node{}, m.list[:i]...), e), m.list[i:]...)
					m.idx++
				case 2:
					e := newElem(f.Type().Elem())
					p = guard(func() { c.InsertAfter(e) })
					m.list = append(append(append([]sqlast.Node{}, m.list[:i+1]...), e), m.list[i+1:]...)
				case 3:
					p = guard(c.Delete)
					m.list = append(append([]sqlast.Node{}, m.list[:i]...), m.list[i+1:]...)
				}
				if p != nil {
					fail("edit panics: %v (edits: %s)", p, hist)
				}
				same(k, m)
				if op == 3 {
					m.idx = -1 // nothing at the cursor's place any more
					return
				}
				if c.Index() != m.idx {
					fail("the cursor's index is %d, expected %d (edits: %s)", c.Index(), m.idx, hist)
				}
			}
			if r.Intn(10) == 0 && bad == "" {
				// an edit that the place does not allow
				d0 := dump(root)
				var p interface{}
				if c.Index() < 0 {
					e := newElem(reflect.TypeOf((*sqlast.Node)(nil)).Elem())
					hist += " illegal list edit of " + k.f
					switch r.Intn(3) {
					case 0:
						p = guard(c.Delete)
					case 1:
						p = guard(func() { c.InsertAfter(e) })
					case 2:
						p = guard(func() { c.InsertBefore(e) })
					}
				} else if m != nil && m.idx >= 0 && f.Type().Elem().Kind() != reflect.Interface {
					var e sqlast.Node = &sqlast.Wildcard{}
					if reflect.TypeOf(e) == f.Type().Elem() {
						e = &sqlast.NullValue{}
					}
					hist += " edit of " + k.f + " with a node of the wrong type"
					switch r.Intn(3) {
					case 0:
						p = guard(func() { c.Replace(e) })
					case 1:
						p = guard(func() { c.InsertAfter(e) })
					case 2:
						p = guard(func() { c.InsertBefore(e) })
					}
				} else {
					return
				}
				if p == nil {
					fail("%s: does not panic", hist)
				} else if dump(root) != d0 {
					fail("%s: panics but changes the tree", hist)
				}
			}
			_ = n
		}
		pre := func(c *sqlastutil.Cursor) bool {
			k := listKey{c.Parent(), c.Name()}
			if fresh[c.Node()] {
				fail("an inserted node is visited (edits: %s)", hist)
				return false
			}
			if c.Index() >= 0 {
				m := lists[k]
				if m == nil {
					l := read(k)
					m = &listModel{list: l, orig: append([]sqlast.Node{}, l...)}
					lists[k] = m
				}
				if m.next >= len(m.orig) || m.orig[m.next] != c.Node() {
					fail("%s.%s: visit number %d is not the original element %d (edits: %s)", tname(k.p), k.f, m.next, m.next, hist)
					return false
				}
				m.next++
				m.idx = -1
				for i, e := range m.list {
					if e == c.Node() {
						m.idx = i
					}
				}
				if c.Index() != m.idx {
					fail("%s.%s: the cursor's index is %d, the node is at %d (edits: %s)", tname(k.p), k.f, c.Index(), m.idx, hist)
				}
			}
			if r.Intn(3) == 0 {
				edits(c, "pre")
			}
			return r.Intn(10) != 0
		}
		post := func(c *sqlastutil.Cursor) bool {
			m := lists[listKey{c.Parent(), c.Name()}]
			if m == nil || m.idx >= 0 {
				if r.Intn(3) == 0 {
					edits(c, "post")
				}
			}
			return true
		}
		if p := guard(func() { sqlastutil.Apply(root, pre, post) }); p != nil {
			fail("Apply panics: %v (edits: %s)", p, hist)
		}
		for k, m := range lists {
			same(k, m)
			if m.next != len(m.orig) {
				fail("%s.%s: %d of %d original elements visited (edits: %s)", tname(k.p), k.f, m.next, len(m.orig), hist)
			}
		}
		if bad != "" {
			found("Apply with edits: %s\ntree before: %s", bad, before)
		}
	})
}

func names1(l []sqlast.Node) (s []string) {
	for _, n := range l {
		s = append(s, fmt.Sprintf("%T@%p", n, n))
	}
	return
}
