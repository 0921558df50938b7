package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash-consed: two structurally equal terms are the same pointer.
// Machine integers are mathematical integers.

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SStr
	SFloat
	SRef
	SSeq
	SStruct
	STuple
)

func (s Sort) smt() string {
	return [...]string{"Int", "Bool", "Str", "Float", "Ref", "Seq_", "Struct", "Tuple"}[s]
}

type Term struct {
	Op   string
	A    []*Term
	I    int64
	S    string
	Sort Sort
	T    types.Type // Go type when known; not part of identity except for ops that carry it in S
	id   int
	str  string
}

var (
	internMu sync.Mutex
	interned = map[string]*Term{}
	termSeq  int
	freshSeq int
)

func mk(op string, sort Sort, s string, i int64, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteByte('0' + byte(sort))
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(i, 10))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	internMu.Lock()
	defer internMu.Unlock()
	if t, ok := interned[k]; ok {
		if t.T == nil && typ != nil {
			t.T = typ
		}
		return t
	}
	termSeq++
	t := &Term{Op: op, A: args, I: i, S: s, Sort: sort, T: typ, id: termSeq}
	interned[k] = t
	return t
}

func Int(i int64) *Term { return mk("int", SInt, "", i, nil) }
func Bool(b bool) *Term {
	if b {
		return mk("bool", SBool, "", 1, nil)
	}
	return mk("bool", SBool, "", 0, nil)
}

var (
	True   = Bool(true)
	False  = Bool(false)
	Nil    = mk("nil", SRef, "", 0, nil)
	NilSeq = mk("nilseq", SSeq, "", 0, nil)
	Zero   = Int(0)
	One    = Int(1)
)

func Str(s string) *Term { return mk("str", SStr, s, 0, nil) }

func Sym(name string, sort Sort, t types.Type) *Term { return mk("sym", sort, name, 0, t) }

func Fresh(prefix string, sort Sort, t types.Type) *Term {
	internMu.Lock()
	freshSeq++
	n := freshSeq
	internMu.Unlock()
	return Sym(fmt.Sprintf("%s#%d", prefix, n), sort, t)
}

func FreshT(prefix string, t types.Type) *Term { return Fresh(prefix, sortOf(t), t) }

func UF(name string, sort Sort, args ...*Term) *Term {
	return mk("uf", sort, name, 0, nil, args...)
}

func (t *Term) IsConst() bool {
	return t.Op == "int" || t.Op == "bool" || t.Op == "str" || t.Op == "nil"
}

func sortOf(t types.Type) Sort {
	if t == nil {
		return SRef
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFloat
		case u.Kind() == types.UntypedNil:
			return SRef
		}
		return SRef
	case *types.Slice:
		if isByte(u.Elem()) {
			return SStr
		}
		return SSeq
	case *types.Struct:
		return SStruct
	case *types.Array:
		return SStruct
	case *types.Tuple:
		return STuple
	}
	return SRef
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// ---------- integers: canonical linear forms ----------

type lin struct {
	c  int64
	ks []*Term
	vs map[*Term]int64
}

func toLin(t *Term) lin {
	l := lin{vs: map[*Term]int64{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, k int64) {
	switch t.Op {
	case "int":
		l.c += k * t.I
	case "+":
		for _, a := range t.A {
			l.add(a, k)
		}
	case "*c":
		l.add(t.A[0], k*t.I)
	default:
		l.vs[t] += k
	}
}

func (l lin) term() *Term {
	var ks []*Term
	for t, k := range l.vs {
		if k != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		k := l.vs[t]
		if k == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("*c", SInt, "", k, nil, t))
		}
	}
	if l.c != 0 || len(args) == 0 {
		args = append(args, Int(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", SInt, "", 0, nil, args...)
}

func Add(a, b *Term) *Term { l := toLin(a); l.add(b, 1); return l.term() }
func Sub(a, b *Term) *Term { l := toLin(a); l.add(b, -1); return l.term() }
func Neg(a *Term) *Term    { l := lin{vs: map[*Term]int64{}}; l.add(a, -1); return l.term() }
func Mul(a, b *Term) *Term {
	if a.Op == "int" {
		l := lin{vs: map[*Term]int64{}}
		l.add(b, a.I)
		return l.term()
	}
	if b.Op == "int" {
		return Mul(b, a)
	}
	return UF("mul", SInt, a, b)
}

// ge0(t): t >= 0
func ge0(t *Term) *Term {
	l := toLin(t)
	allZero := true
	for x, k := range l.vs {
		if k == 0 {
			continue
		}
		// lengths are non-negative
		if k > 0 && (x.Op == "len" || x.Op == "slen") {
			continue
		}
		allZero = false
	}
	n := 0
	for _, k := range l.vs {
		if k != 0 {
			n++
		}
	}
	if n == 0 {
		return Bool(l.c >= 0)
	}
	if allZero && l.c >= 0 {
		return True
	}
	return mk("ge0", SBool, "", 0, nil, l.term())
}
func Le(a, b *Term) *Term { return ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return ge0(Sub(Sub(b, a), One)) }

func eq0(t *Term) *Term {
	l := toLin(t)
	var ks []*Term
	for x, k := range l.vs {
		if k != 0 {
			ks = append(ks, x)
		}
	}
	if len(ks) == 0 {
		return Bool(l.c == 0)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if l.vs[ks[0]] < 0 {
		for x := range l.vs {
			l.vs[x] = -l.vs[x]
		}
		l.c = -l.c
	}
	return mk("eq0", SBool, "", 0, nil, l.term())
}

// ---------- booleans ----------

func Not(t *Term) *Term {
	switch t.Op {
	case "bool":
		return Bool(t.I == 0)
	case "not":
		return t.A[0]
	case "ge0":
		return ge0(Sub(Neg(t.A[0]), One))
	}
	return mk("not", SBool, "", 0, nil, t)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.A {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", SBool, "", 0, nil, out...)
}

func Or(ts ...*Term) *Term {
	var ns []*Term
	for _, t := range ts {
		ns = append(ns, Not(t))
	}
	return Not(And(ns...))
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort == SBool {
		return And(Implies(c, a), Or(c, b))
	}
	return mk("ite", a.Sort, "", 0, a.T, c, a, b)
}

// definitely non-nil reference terms
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "box", "global", "func", "closure", "addr.f", "addr.i":
		return true
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		// nil compared with a slice or byte slice
		if a.Op == "nil" {
			return isNilOf(b)
		}
		if b.Op == "nil" {
			return isNilOf(a)
		}
		return mk("eq", SBool, "", 0, nil, ord(a, b)...)
	}
	switch a.Sort {
	case SInt:
		return eq0(Sub(a, b))
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SStr:
		if a.Op == "str" && b.Op == "str" {
			return Bool(a.S == b.S)
		}
	case SRef:
		if (a.Op == "nil" && nonNil(b)) || (b.Op == "nil" && nonNil(a)) {
			return False
		}
		if a.Op == "alloc" && b.Op == "alloc" {
			return False
		}
		if a.Op == "box" && b.Op == "box" {
			if a.S != b.S {
				return False
			}
			return Eq(a.A[0], b.A[0])
		}
		if a.Op == "global" && b.Op == "global" {
			return False
		}
		if a.Op == "addr.f" && b.Op == "addr.f" {
			if a.S == b.S && a.I == b.I {
				return Eq(a.A[0], b.A[0])
			}
			return False // different fields
		}
		if isErrConst(a) && isErrConst(b) {
			return False
		}
		if (isErrConst(a) && b.Op == "nil") || (isErrConst(b) && a.Op == "nil") {
			return False
		}
	case SSeq:
		if a.Op == "nilseq" {
			return isNilOf(b)
		}
		if b.Op == "nilseq" {
			return isNilOf(a)
		}
	case SStruct:
		if a.Op == "struct" && b.Op == "struct" && len(a.A) == len(b.A) {
			var cs []*Term
			for i := range a.A {
				cs = append(cs, Eq(a.A[i], b.A[i]))
			}
			return And(cs...)
		}
		if b.Op == "struct" {
			a, b = b, a
		}
		if a.Op == "struct" {
			var cs []*Term
			for i := range a.A {
				cs = append(cs, Eq(a.A[i], Sel(b, i, a.A[i].Sort, a.A[i].T)))
			}
			return And(cs...)
		}
	}
	if a.Op == "ite" && a.A[1].IsConst() && a.A[2].IsConst() && b.IsConst() {
		return Ite(a.A[0], Eq(a.A[1], b), Eq(a.A[2], b))
	}
	return mk("eq", SBool, "", 0, nil, ord(a, b)...)
}

func isErrConst(t *Term) bool { return t.Op == "errconst" }

func ord(a, b *Term) []*Term {
	if a.id < b.id {
		return []*Term{a, b}
	}
	return []*Term{b, a}
}

func isNilOf(s *Term) *Term {
	switch s.Op {
	case "nilseq":
		return True
	case "seq", "snoc":
		if s.Op == "snoc" || len(s.A) > 0 {
			return False
		}
		return False
	case "str":
		return Bool(s.S == "" && s.I == 1)
	}
	if s.Sort == SRef {
		return Eq(s, Nil)
	}
	return mk("isnil", SBool, "", 0, nil, s)
}

// ---------- structs, fields ----------

func Struct(t types.Type, fs ...*Term) *Term { return mk("struct", SStruct, tstr(t), 0, t, fs...) }

func Sel(x *Term, i int, sort Sort, t types.Type) *Term {
	if x.Op == "struct" || x.Op == "tuple" {
		return x.A[i]
	}
	if x.Op == "ite" {
		return Ite(x.A[0], Sel(x.A[1], i, sort, t), Sel(x.A[2], i, sort, t))
	}
	return mk("sel", sort, "", int64(i), t, x)
}

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func Box(x *Term, t types.Type) *Term {
	return mk("box", SRef, tstr(t), 0, t, x)
}

// ---------- sequences ----------

func Len(s *Term) *Term {
	switch s.Op {
	case "nilseq":
		return Zero
	case "seq":
		return Int(int64(len(s.A)))
	case "snoc":
		return Add(Len(s.A[0]), One)
	case "cat":
		r := Zero
		for _, a := range s.A {
			r = Add(r, Len(a))
		}
		return r
	case "sub":
		return Sub(s.A[2], s.A[1])
	case "str":
		return Int(int64(len(s.S)))
	case "scat":
		r := Zero
		for _, a := range s.A {
			r = Add(r, Len(a))
		}
		return r
	case "upd":
		return Len(s.A[0])
	}
	if s.Sort == SStr {
		return mk("slen", SInt, "", 0, nil, s)
	}
	return mk("len", SInt, "", 0, nil, s)
}

func Seq(xs ...*Term) *Term { return mk("seq", SSeq, "", 0, nil, xs...) }

func Snoc(s, x *Term) *Term {
	switch s.Op {
	case "nilseq":
		return Seq(x)
	case "seq":
		return Seq(append(append([]*Term{}, s.A...), x)...)
	}
	return mk("snoc", SSeq, "", 0, s.T, s, x)
}

func Cat(a, b *Term) *Term {
	if a.Op == "nilseq" || (a.Op == "seq" && len(a.A) == 0) {
		return b
	}
	if b.Op == "nilseq" || (b.Op == "seq" && len(b.A) == 0) {
		return a
	}
	if b.Op == "seq" {
		for _, x := range b.A {
			a = Snoc(a, x)
		}
		return a
	}
	if b.Op == "snoc" {
		return Snoc(Cat(a, b.A[0]), b.A[1])
	}
	return mk("cat", SSeq, "", 0, a.T, a, b)
}

func At(s, i *Term, sort Sort, t types.Type) *Term {
	switch s.Op {
	case "seq":
		if i.Op == "int" && i.I >= 0 && int(i.I) < len(s.A) {
			return s.A[i.I]
		}
	case "snoc":
		if i == Len(s.A[0]) {
			return s.A[1]
		}
		d := Sub(Sub(Len(s.A[0]), i), One)
		if d.Op == "int" && d.I >= 0 {
			return At(s.A[0], i, sort, t)
		}
	case "sub":
		return At(s.A[0], Add(s.A[1], i), sort, t)
	}
	return mk("at", sort, "", 0, t, s, i)
}

func SubSeq(s, i, j *Term) *Term {
	if i == Zero && j == Len(s) {
		return s
	}
	if s.Op == "seq" && i.Op == "int" && j.Op == "int" && i.I <= j.I && int(j.I) <= len(s.A) && i.I >= 0 {
		return Seq(s.A[i.I:j.I]...)
	}
	if s.Op == "sub" {
		return SubSeq(s.A[0], Add(s.A[1], i), Add(s.A[1], j))
	}
	if s.Op == "snoc" && i == Zero && j == Len(s.A[0]) {
		return s.A[0]
	}
	return mk("sub", SSeq, "", 0, s.T, s, i, j)
}

// ---------- strings ----------

func SCat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		var ps []*Term
		if t.Op == "scat" {
			ps = t.A
		} else {
			ps = []*Term{t}
		}
		for _, p := range ps {
			if p.Op == "str" && p.S == "" {
				continue
			}
			if p.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = Str(out[len(out)-1].S + p.S)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk("scat", SStr, "", 0, nil, out...)
}

// ---------- substitution ----------

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "+":
		r := Zero
		for _, a := range args {
			r = Add(r, a)
		}
		return r
	case "*c":
		return Mul(Int(t.I), args[0])
	case "ge0":
		return ge0(args[0])
	case "eq0":
		return eq0(args[0])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "eq":
		return Eq(args[0], args[1])
	case "len", "slen":
		return Len(args[0])
	case "snoc":
		return Snoc(args[0], args[1])
	case "cat":
		return Cat(args[0], args[1])
	case "at":
		return At(args[0], args[1], t.Sort, t.T)
	case "sub":
		return SubSeq(args[0], args[1], args[2])
	case "sel":
		return Sel(args[0], int(t.I), t.Sort, t.T)
	case "scat":
		return SCat(args...)
	case "isnil":
		return isNilOf(args[0])
	case "istype":
		return IsType(args[0], t.S, t.T)
	case "unbox":
		return Unbox(args[0], t.T)
	}
	return mk(t.Op, t.Sort, t.S, t.I, t.T, args...)
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func IsType(x *Term, ts string, t types.Type) *Term {
	if x.Op == "box" {
		return Bool(x.S == ts)
	}
	if x.Op == "nil" {
		return False
	}
	return mk("istype", SBool, ts, 0, t, x)
}

func Unbox(x *Term, t types.Type) *Term {
	if x.Op == "box" {
		return x.A[0]
	}
	return mk("unbox", sortOf(t), tstr(t), 0, t, x)
}

// collect subterms
func (t *Term) walk(seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.A {
		a.walk(seen, f)
	}
	f(t)
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(map[*Term]bool{}, func(y *Term) {
		if x == y {
			found = true
		}
	})
	return found
}

// ---------- printing ----------

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	if t.str != "" {
		return t.str
	}
	var s string
	args := func(sep string) string {
		var p []string
		for _, a := range t.A {
			p = append(p, a.String())
		}
		return strings.Join(p, sep)
	}
	switch t.Op {
	case "int":
		s = strconv.FormatInt(t.I, 10)
	case "bool":
		s = strconv.FormatBool(t.I == 1)
	case "str":
		s = strconv.Quote(t.S)
	case "nil":
		s = "nil"
	case "nilseq":
		s = "[]nil"
	case "sym":
		s = t.S
	case "alloc":
		s = fmt.Sprintf("new%d<%s>", t.I, tstr(t.T))
	case "global", "func":
		s = t.S
	case "fld":
		f := t.S
		if i := strings.LastIndex(f, "."); i >= 0 {
			f = f[i+1:]
		}
		s = t.A[0].String() + "." + f
	case "addr.f":
		s = "&" + t.A[0].String() + "." + t.S
	case "addr.i":
		s = "&" + t.A[0].String() + "[" + t.A[1].String() + "]"
	case "box":
		s = t.S + "(" + args(",") + ")"
	case "unbox":
		s = t.A[0].String() + ".(" + t.S + ")"
	case "istype":
		s = t.A[0].String() + " is " + t.S
	case "struct":
		s = t.S + "{" + args(",") + "}"
	case "sel":
		s = t.A[0].String() + "." + strconv.FormatInt(t.I, 10)
	case "+":
		s = "(" + args(" + ") + ")"
	case "*c":
		s = strconv.FormatInt(t.I, 10) + "*" + t.A[0].String()
	case "ge0":
		s = t.A[0].String() + " >= 0"
	case "eq0":
		s = t.A[0].String() + " == 0"
	case "eq":
		s = "(" + args(" == ") + ")"
	case "not":
		s = "!" + t.A[0].String()
	case "and":
		s = "(" + args(" && ") + ")"
	case "at":
		s = t.A[0].String() + "[" + t.A[1].String() + "]"
	case "seq":
		s = "[" + args(", ") + "]"
	case "uf", "rep", "closure":
		s = t.S + "(" + args(", ") + ")"
	default:
		s = t.Op + "(" + args(", ") + ")"
		if t.S != "" {
			s = t.Op + ":" + s
		}
	}
	if len(s) > 3000 { // shared parts make the text of a term exponentially long
		s = s[:2900] + fmt.Sprintf("…#%d", t.id)
	}
	t.str = s
	return s
}
