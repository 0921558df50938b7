package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the printing interface.
//
//   io.Writer.Write / io.StringWriter.WriteString (assumed, from package io):
//     requires  no earlier write to this destination has failed        (C09 only)
//     ensures   0 <= n <= len(data), err == nil => n == len(data),
//               total(w) = old(total(w)) + n, failed(w) = err
//   (Node).WriteTo (proved for every implementation, used at every call):
//     requires  receiver non-nil, no earlier write to w has failed
//     ensures   n == total(w) - old(total(w)), err == failed(w), no tree cell modified
//               and, when the destination does not fail, out(w) = old(out(w)) ++ text(node)
//   (Node).ToSQLString: ensures result == text(node)

type wmodel struct {
	text     bool // record the text written (destination never fails)
	recv     *Term
	nodeI    *types.Interface
	requires bool
}

func ghostTotal(w *Term) *Term { return UF("ghost.total", SRef, w) }
func ghostErr(w *Term) *Term   { return UF("ghost.err", SRef, w) }
func ghostOut(w *Term) *Term   { return UF("ghost.out", SRef, w) }

func textOf(n *Term) *Term { return UF("text", SStr, n) }

func isOutLog(a *Term) bool { return a.Op == "uf" && a.S == "ghost.out" }

func dest(w *Term) *Term {
	if w.Op == "box" {
		return w.A[0]
	}
	return w
}

func isBuf(t types.Type) bool {
	s := t.String()
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

// isLocalBuf: destination is an in-memory buffer, which never fails.
func isLocalBuf(w *Term) bool {
	if w.Op == "box" && w.T != nil && isBuf(w.T) {
		return true
	}
	return w.Op == "alloc"
}

func (m *wmodel) write(x *Exec, fr *Frame, st *State, w, data *Term, pos token.Pos) []*Term {
	d := dest(w)
	if m.text || isLocalBuf(w) {
		o := st.mem[ghostOut(d)]
		if o == nil {
			o = Str("")
		}
		st.mem[ghostOut(d)] = SCat(o, data)
		return []*Term{Len(data), Nil}
	}
	ge := st.mem[ghostErr(d)]
	if ge == nil {
		x.Ob(fname(x.top), "unsupported", "write to an unexpected destination "+w.String(), false, "", pos)
		return []*Term{Fresh("n", SInt, nil), Fresh("err", SRef, nil)}
	}
	ok := x.Prove(st, Eq(ge, Nil))
	x.Ob(fname(x.top), "no-write-after-error", "Write in "+fname(fr.fn), ok, whyNot(ok, Eq(ge, Nil), st), pos)
	st.assume(Eq(ge, Nil))
	n := Fresh("n", SInt, nil)
	e := Fresh("werr", SRef, nil)
	st.assume(Le(Zero, n))
	st.assume(Le(n, Len(data)))
	st.assume(Implies(Eq(e, Nil), Eq(n, Len(data))))
	st.mem[ghostTotal(d)] = Add(st.mem[ghostTotal(d)], n)
	st.mem[ghostErr(d)] = e
	return []*Term{n, e}
}

func whyNot(ok bool, goal *Term, st *State) string {
	if ok {
		return ""
	}
	return "not provable: " + goal.String() + "\n  path: " + pathStr(st)
}

func (m *wmodel) node(x *Exec, fr *Frame, st *State, node, w *Term, pos token.Pos) []*Term {
	d := dest(w)
	x.require(fr, st, Not(Eq(nodeRef(node), Nil)), "nil-deref", "WriteTo receiver", pos)
	if m.recv != nil && node == m.recv {
		x.Ob(fname(x.top), "termination", "WriteTo on the receiver itself in "+fname(fr.fn), false, "the printed child must be a proper child of the node", pos)
	}
	if m.text || isLocalBuf(w) {
		o := st.mem[ghostOut(d)]
		if o == nil {
			o = Str("")
		}
		st.mem[ghostOut(d)] = SCat(o, textOf(node))
		return []*Term{Len(textOf(node)), Nil}
	}
	ge := st.mem[ghostErr(d)]
	if ge == nil {
		x.Ob(fname(x.top), "unsupported", "WriteTo to an unexpected destination "+w.String(), false, "", pos)
		return []*Term{Fresh("n", SInt, nil), Fresh("err", SRef, nil)}
	}
	ok := x.Prove(st, Eq(ge, Nil))
	x.Ob(fname(x.top), "no-write-after-error", "WriteTo in "+fname(fr.fn), ok, whyNot(ok, Eq(ge, Nil), st), pos)
	st.assume(Eq(ge, Nil))
	n := Fresh("n", SInt, nil)
	e := Fresh("werr", SRef, nil)
	st.assume(Le(Zero, n))
	st.mem[ghostTotal(d)] = Add(st.mem[ghostTotal(d)], n)
	st.mem[ghostErr(d)] = e
	return []*Term{n, e}
}

// nodeRef: the pointer inside a boxed node
func nodeRef(n *Term) *Term {
	if n.Op == "box" && n.A[0].Sort == SRef {
		return n.A[0]
	}
	return n
}

func (m *wmodel) isNodeType(t types.Type) bool {
	return types.Implements(t, m.nodeI)
}

func (m *wmodel) model(x *Exec, fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
	ret := func(vs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, vals: vs}}, true }
	pos := token.NoPos
	if ci.instr != nil {
		pos = ci.instr.Pos()
	}
	// interface calls
	if ci.method != "" && ci.recv != nil {
		switch ci.method {
		case "Write", "WriteString":
			if len(ci.args) == 1 && ci.args[0].Sort == SStr {
				return ret(m.write(x, fr, st, ci.recv, ci.args[0], pos)...)
			}
		case "WriteTo":
			return ret(m.node(x, fr, st, ci.recv, ci.args[0], pos)...)
		case "ToSQLString":
			x.require(fr, st, Not(Eq(nodeRef(ci.recv), Nil)), "nil-deref", "ToSQLString receiver", pos)
			if m.recv != nil && ci.recv == m.recv {
				x.Ob(fname(x.top), "termination", "ToSQLString on the receiver itself in "+fname(fr.fn), false, "", pos)
			}
			return ret(textOf(ci.recv))
		}
		return nil, false
	}
	if ci.fn == nil {
		return nil, false
	}
	full := ci.fn.String()
	switch full {
	case "io.WriteString":
		return ret(m.write(x, fr, st, ci.args[0], ci.args[1], pos)...)
	case "fmt.Fprintf":
		return ret(m.write(x, fr, st, ci.args[0], sprintf(ci.args[1], ci.args[2]), pos)...)
	case "fmt.Fprint":
		if s := sprint(ci.args[1]); s != nil {
			return ret(m.write(x, fr, st, ci.args[0], s, pos)...)
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write":
		return ret(m.write(x, fr, st, ci.args[0], ci.args[1], pos)...)
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		m.write(x, fr, st, ci.args[0], runeStr(ci.args[1]), pos)
		return ret(Nil)
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		return ret(m.write(x, fr, st, ci.args[0], runeStr(ci.args[1]), pos)...)
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ret()
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		o := st.mem[ghostOut(dest(ci.args[0]))]
		if o == nil {
			o = Str("")
		}
		return ret(o)
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		o := st.mem[ghostOut(dest(ci.args[0]))]
		if o == nil {
			o = Str("")
		}
		return ret(Len(o))
	case "(*bytes.Buffer).WriteTo":
		o := st.mem[ghostOut(dest(ci.args[0]))]
		if o == nil {
			o = Str("")
		}
		st.mem[ghostOut(dest(ci.args[0]))] = Str("")
		return ret(m.write(x, fr, st, ci.args[1], o, pos)...)
	}
	// static calls of WriteTo / ToSQLString on node types
	rc := ci.fn.Signature.Recv()
	if rc != nil && ci.fn.Pkg != nil && strings.HasPrefix(ci.fn.Pkg.Pkg.Path(), modPath) {
		switch ci.fn.Name() {
		case "WriteTo":
			if m.isNodeType(rc.Type()) && len(ci.args) == 2 {
				if Box(ci.args[0], rc.Type()) == m.recv && !x.inStack(fr, ci.fn) {
					return nil, false // the node's own method: verified inline
				}
				return ret(m.node(x, fr, st, Box(ci.args[0], rc.Type()), ci.args[1], pos)...)
			}
		case "ToSQLString":
			if m.isNodeType(rc.Type()) && len(ci.args) == 1 {
				b := Box(ci.args[0], rc.Type())
				if b == m.recv && !x.inStack(fr, ci.fn) {
					return nil, false
				}
				if m.recv != nil && b == m.recv {
					x.Ob(fname(x.top), "termination", "ToSQLString on the receiver itself in "+fname(fr.fn), false, "", pos)
				}
				return ret(textOf(b))
			}
		}
	}
	return nil, false
}

func runeStr(t *Term) *Term {
	if t.Op == "int" {
		return Str(string(rune(t.I)))
	}
	return UF("runestr", SStr, t)
}

// sprintf expands a constant format over a literal argument list.
func sprintf(f, args *Term) *Term {
	un := UF("fmt.Sprintf", SStr, f, args)
	if f.Op != "str" {
		return un
	}
	var as []*Term
	switch args.Op {
	case "seq":
		as = args.A
	case "nilseq":
	default:
		return un
	}
	var out []*Term
	s := f.S
	k := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = append(out, Str(s))
			break
		}
		out = append(out, Str(s[:i]))
		if i+1 >= len(s) {
			return un
		}
		v := s[i+1]
		s = s[i+2:]
		if v == '%' {
			out = append(out, Str("%"))
			continue
		}
		if k >= len(as) {
			return un
		}
		p := fmtArg(v, as[k])
		if p == nil {
			return un
		}
		k++
		out = append(out, p)
	}
	if k != len(as) {
		return un
	}
	return SCat(out...)
}

func fmtArg(v byte, a *Term) *Term {
	if a.Op != "box" {
		return nil
	}
	b, ok := a.T.(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsString != 0 && (v == 's' || v == 'v'):
		return a.A[0]
	case b.Info()&types.IsInteger != 0 && (v == 'd' || v == 'v'):
		return UF("itoa", SStr, a.A[0])
	}
	return nil
}

func sprint(args *Term) *Term {
	if args.Op == "seq" && len(args.A) == 1 {
		return fmtArg('v', args.A[0])
	}
	return nil
}

// ---------- drivers ----------

type nodeType struct {
	T    types.Type // pointer type
	name string
}

func nodeTypes(P *Program) []nodeType {
	var out []nodeType
	for _, t := range P.implementers("sqlast", "Node") {
		out = append(out, nodeType{t, strings.TrimPrefix(tstr(t), "*sqlast.")})
	}
	return out
}

// wfAssume adds the well-formedness facts of the node held by recv (a pointer) to st:
// required children are non-nil and required lists are non-empty (from the grammar).
func wfAssume(P *Program, x *Exec, st *State, nt nodeType, recv *Term) {
	st.assume(Not(Eq(recv, Nil)))
	g := grammar(P)
	r := g.rules[nt.name]
	if r == nil {
		return
	}
	base := &bindCtx{x: x, st: st, recv: recv, T: nt.T.Underlying().(*types.Pointer).Elem()}
	for _, f := range r.wf(P, base) {
		st.assume(f)
	}
}

func (P *Program) nodeIface() *types.Interface {
	return P.pkgs["sqlast"].Type("Node").Type().Underlying().(*types.Interface)
}

func checkC09(P *Program, rep *Report) {
	for _, nt := range nodeTypes(P) {
		x := rep.exec(P, "C09")
		m := &wmodel{nodeI: P.nodeIface()}
		x.model = m.model
		f := P.method(nt.T, "WriteTo")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		x.top = f
		st := newState()
		recv := Sym("n", SRef, nt.T)
		m.recv = Box(recv, nt.T)
		wfAssume(P, x, st, nt, recv)
		w := Sym("w", SRef, f.Params[1].Type())
		st.assume(Not(Eq(w, Nil)))
		tot := Sym("total0", SInt, nil)
		st.mem[ghostTotal(w)] = tot
		st.mem[ghostErr(w)] = Nil
		exits := x.Run(f, []*Term{recv, w}, nil, st, nil)
		nret := 0
		for _, e := range exits {
			if e.kind != exRet {
				continue
			}
			nret++
			g1 := Eq(e.vals[0], Sub(e.st.mem[ghostTotal(w)], tot))
			ok := x.Prove(e.st, g1)
			x.Ob(fname(f), "post:count", fmt.Sprintf("return %d: n equals the bytes accepted by the destination", nret), ok, whyNot(ok, g1, e.st), f.Pos())
			g2 := Eq(e.vals[1], e.st.mem[ghostErr(w)])
			ok = x.Prove(e.st, g2)
			x.Ob(fname(f), "post:error", fmt.Sprintf("return %d: err is the destination's first error", nret), ok, whyNot(ok, g2, e.st), f.Pos())
		}
		x.Ob(fname(f), "reachable", "WriteTo has a normal return", nret > 0, "no return path", f.Pos())
		rep.done(x, f)
		checkToSQL(P, rep, nt)
	}
}

// checkToSQL: ToSQLString returns the text WriteTo writes.
func checkToSQL(P *Program, rep *Report, nt nodeType) {
	x := rep.exec(P, "C09")
	m := &wmodel{nodeI: P.nodeIface(), text: true}
	x.model = m.model
	x.isLog = isOutLog
	f := P.method(nt.T, "ToSQLString")
	wt := P.method(nt.T, "WriteTo")
	if f == nil || len(f.Blocks) == 0 || wt == nil {
		return
	}
	x.top = f
	st := newState()
	recv := Sym("n", SRef, nt.T)
	self := Box(recv, nt.T)
	wfAssume(P, x, st, nt, recv)
	k := 0
	for _, e := range x.Run(f, []*Term{recv}, nil, st, nil) {
		if e.kind != exRet {
			continue
		}
		k++
		res := e.vals[0]
		det := fmt.Sprintf("return %d: ToSQLString equals the text WriteTo writes", k)
		if res == textOf(self) {
			x.Ob(fname(f), "post:text", det, true, "", f.Pos())
			continue
		}
		// run WriteTo from here on an infallible destination and compare
		w := Sym("w", SRef, wt.Params[1].Type())
		es := e.st.clone()
		es.mem[ghostOut(w)] = Str("")
		m.recv = self
		for _, e2 := range x.Run(wt, []*Term{recv, w}, nil, es, nil) {
			if e2.kind != exRet {
				continue
			}
			o := e2.st.mem[ghostOut(w)]
			ok := o == res || x.Prove(e2.st, Eq(o, res))
			x.Ob(fname(f), "post:text", det, ok, whyNot(ok, Eq(o, res), e2.st), f.Pos())
		}
		m.recv = nil
	}
	x.Ob(fname(f), "reachable", "ToSQLString has a normal return", k > 0, "", f.Pos())
	rep.done(x, f)
}

var _ = ssa.NewProgram
