package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step executes one straight-line instruction; false means the path is dead.
func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		st.env[in] = newAlloc(t)
	case *ssa.BinOp:
		st.env[in] = x.binop(fr, st, in)
	case *ssa.UnOp:
		v := x.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			x.nilCheck(fr, st, v, in.Pos(), in.X)
			st.env[in] = x.load(st, v, in.Type())
		case token.NOT:
			st.env[in] = Not(v)
		case token.SUB:
			if v.Sort == SInt {
				st.env[in] = Neg(v)
			} else {
				st.env[in] = UF("fneg", v.Sort, v)
			}
		default:
			st.env[in] = UF("unop"+in.Op.String(), sortOf(in.Type()), v)
		}
	case *ssa.ChangeType:
		st.env[in] = x.val(fr, st, in.X)
	case *ssa.ChangeInterface:
		st.env[in] = x.val(fr, st, in.X)
	case *ssa.Convert:
		st.env[in] = x.convert(x.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		st.env[in] = x.convert(x.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		tup := x.val(fr, st, in.Tuple)
		st.env[in] = Sel(tup, in.Index, sortOf(in.Type()), in.Type())
	case *ssa.Field:
		st.env[in] = Sel(x.val(fr, st, in.X), in.Field, sortOf(in.Type()), in.Type())
	case *ssa.FieldAddr:
		b := x.val(fr, st, in.X)
		x.nilCheck(fr, st, b, in.Pos(), in.X)
		st.env[in] = fieldAddr(b, in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field)
	case *ssa.Index:
		s := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index)
		if s.Sort == SStr {
			x.require(fr, st, And(Le(Zero, i), Lt(i, Len(s))), "index", exprStr(in.X), in.Pos())
			st.env[in] = UF("byteat", SInt, s, i)
		} else {
			st.env[in] = UF("arrat", sortOf(in.Type()), s, i)
		}
	case *ssa.IndexAddr:
		b := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.require(fr, st, And(Le(Zero, i), Lt(i, Len(b))), "index", exprStr(in.X), in.Pos())
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			x.require(fr, st, And(Le(Zero, i), Lt(i, Int(n))), "index", exprStr(in.X), in.Pos())
		}
		st.env[in] = mk("addr.i", SRef, "", 0, in.Type(), b, i)
	case *ssa.Lookup:
		m := x.val(fr, st, in.X)
		k := x.val(fr, st, in.Index)
		if m.Sort == SStr {
			x.require(fr, st, And(Le(Zero, k), Lt(k, Len(m))), "index", exprStr(in.X), in.Pos())
			st.env[in] = UF("byteat", SInt, m, k)
			break
		}
		mt := in.X.Type().Underlying().(*types.Map)
		ver := x.mapVer(st, m)
		v := x.mapLookup(st, m, ver, k, mt)
		ok := x.mapHas(st, m, ver, k)
		if x.onLookup != nil {
			x.onLookup(st, m, k, v, ok)
		}
		if in.CommaOk {
			st.env[in] = mk("tuple", STuple, "", 0, nil, v, ok)
		} else {
			st.env[in] = v
		}
	case *ssa.MapUpdate:
		m := x.val(fr, st, in.Map)
		x.require(fr, st, Not(Eq(m, Nil)), "nil-map", exprStr(in.Map), in.Pos())
		if x.onStore != nil {
			x.onStore(x, fr, st, mk("addr.i", SRef, "map", 0, nil, m, x.val(fr, st, in.Key)), x.val(fr, st, in.Value), in.Pos())
		}
		ver := x.mapVer(st, m)
		k, v := x.val(fr, st, in.Key), x.val(fr, st, in.Value)
		nv := UF("mapset", SStruct, ver, k, mkAny(v))
		st.mem[UF("mapver", SRef, m)] = nv
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		st.env[in] = Box(v, in.X.Type())
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		n := f.String()
		closureFns[n] = f
		st.env[in] = mk("closure", SRef, n, 0, nil, bs...)
	case *ssa.MakeMap:
		a := newAlloc(in.Type())
		st.mem[UF("mapver", SRef, a)] = UF("emptymap", SStruct)
		st.env[in] = a
	case *ssa.MakeSlice:
		n := x.val(fr, st, in.Len)
		if n == Zero {
			if isByte(in.Type().Underlying().(*types.Slice).Elem()) {
				st.env[in] = Str("")
			} else {
				st.env[in] = Seq()
			}
		} else {
			f := FreshT("make", in.Type())
			st.assume(Eq(Len(f), n))
			if x.onMake != nil {
				x.onMake(st, f)
			}
			st.env[in] = f
		}
	case *ssa.Slice:
		st.env[in] = x.slice(fr, st, in)
	case *ssa.Store:
		a := x.val(fr, st, in.Addr)
		x.nilCheck(fr, st, a, in.Pos(), in.Addr)
		x.store(fr, st, a, x.val(fr, st, in.Val), in.Val.Type(), in.Pos())
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Defer:
		ci := x.callInfo(fr, st, in)
		var f *Term
		if ci.dyn != nil {
			f = ci.dyn
		} else if ci.fn != nil {
			f = mk("func", SRef, fname(ci.fn), 0, nil)
			closureFns[fname(ci.fn)] = ci.fn
		} else {
			f = mk("func", SRef, ci.name, 0, nil)
		}
		st.defers = append(st.defers, mk("defer", STuple, "", 0, nil, append([]*Term{f}, ci.args...)...))
	case *ssa.Range:
		v := x.val(fr, st, in.X)
		var ver *Term = Nil
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			ver = x.mapVer(st, v)
		}
		st.env[in] = UF("range", SRef, v, ver)
	case *ssa.Next:
		it := x.val(fr, st, in.Iter)
		ok := Fresh("rangeok", SBool, nil)
		tt := in.Type().(*types.Tuple)
		k := FreshT("rangekey", tt.At(1).Type())
		var v *Term
		if in.IsString {
			v = UF("runeat", SInt, it.A[0], k)
			st.assume(Le(Zero, k))
		} else {
			if r, isRange := in.Iter.(*ssa.Range); isRange && x.mapVer(st, it.A[0]) == it.A[1] {
				v = x.mapLookup(st, it.A[0], it.A[1], k, r.X.Type().Underlying().(*types.Map))
			} else {
				v = FreshT("rangeval", tt.At(2).Type())
			}
			st.assume(Implies(ok, UF("mapin", SBool, it.A[1], k, mkAny(v))))
			if x.onRangeVal != nil {
				x.onRangeVal(st, ok, v)
			}
			if x.onRange != nil {
				x.onRange(st, it.A[0], k)
			}
		}
		st.env[in] = mk("tuple", STuple, "", 0, nil, ok, k, v)
	default:
		x.Ob(fname(x.top), "unsupported", "instruction "+in.String(), false, "instruction outside the supported subset", in.Pos())
		if v, ok := in.(ssa.Value); ok {
			st.env[v] = FreshT("unsup", v.Type())
		}
	}
	return true
}

// mkAny makes a term usable as an untyped argument
func mkAny(v *Term) *Term { return v }

func (x *Exec) mapVer(st *State, m *Term) *Term {
	k := UF("mapver", SRef, m)
	if v, ok := st.mem[k]; ok {
		return v
	}
	if m.Op == "alloc" {
		if gi := x.P.ginfo; gi != nil {
			if v, ok := gi.mem[k]; ok {
				return v
			}
		}
		return UF("emptymap", SStruct)
	}
	return UF("mapval", SStruct, m)
}

func (x *Exec) mapLookup(st *State, m, ver, k *Term, mt *types.Map) *Term {
	if ver.Op == "uf" && ver.S == "mapset" {
		e := st.eval(Eq(ver.A[1], k))
		if e == True {
			return ver.A[2]
		}
		return Ite(e, ver.A[2], x.mapLookup(st, m, ver.A[0], k, mt))
	}
	if ver.Op == "uf" && ver.S == "emptymap" {
		return zero(mt.Elem())
	}
	return mk("uf", sortOf(mt.Elem()), "mapget", 0, mt.Elem(), ver, k)
}

func (x *Exec) mapHas(st *State, m, ver, k *Term) *Term {
	if ver.Op == "uf" && ver.S == "mapset" {
		return Or(Eq(ver.A[1], k), x.mapHas(st, m, ver.A[0], k))
	}
	if ver.Op == "uf" && ver.S == "emptymap" {
		return False
	}
	return UF("maphas", SBool, ver, k)
}

func exprStr(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return exprStr(v.X)
		}
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return exprStr(v.X) + "." + st.Field(v.Field).Name()
	case *ssa.IndexAddr:
		return exprStr(v.X) + "[...]"
	case *ssa.Parameter:
		return "param"
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		if v.Call.IsInvoke() {
			return v.Call.Method.Name() + "()"
		}
	case *ssa.Extract:
		return exprStr(v.Tuple)
	case *ssa.TypeAssert:
		return exprStr(v.X) + ".(" + tstr(v.AssertedType) + ")"
	case *ssa.Phi:
		return "var " + v.Comment
	case *ssa.Global:
		return v.Name()
	case *ssa.Alloc:
		return "var " + v.Comment
	}
	return tstr(v.Type())
}

func (x *Exec) nilCheck(fr *Frame, st *State, v *Term, pos token.Pos, src ssa.Value) {
	if nonNil(v) {
		return
	}
	x.require(fr, st, Not(Eq(v, Nil)), "nil-deref", exprStr(src), pos)
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) *Term {
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	isInt := a.Sort == SInt
	switch in.Op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	}
	if isInt {
		switch in.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			if bt, ok := in.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
				x.require(fr, st, Le(b, a), "unsigned-underflow", exprStr(in.X), in.Pos())
			}
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.QUO, token.REM:
			x.require(fr, st, Not(Eq(b, Zero)), "div-zero", "", in.Pos())
			return UF("int"+in.Op.String(), SInt, a, b)
		}
		return UF("int"+in.Op.String(), SInt, a, b)
	}
	if a.Sort == SStr {
		switch in.Op {
		case token.ADD:
			return SCat(a, b)
		}
		return UF("str"+in.Op.String(), SBool, a, b)
	}
	if a.Sort == SBool {
		switch in.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	return UF("op"+in.Op.String(), sortOf(in.Type()), a, b)
}

func (x *Exec) convert(v *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		if fs == SStr {
			if v.Op == "str" && v.I == 1 {
				return Str(v.S)
			}
			return v
		}
		if fs == SInt {
			// integers are mathematical; conversion of a negative value to unsigned is
			// treated as out of scope unless constant
			return v
		}
		return v
	}
	if fs == SInt && ts == SStr {
		if _, ok := to.Underlying().(*types.Basic); ok {
			return UF("runestr", SStr, v)
		}
	}
	return UF("conv:"+tstr(from)+":"+tstr(to), ts, v)
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) *Term {
	b := x.val(fr, st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = x.val(fr, st, in.Low)
	}
	if in.High != nil {
		hi = x.val(fr, st, in.High)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		n := at.Len()
		if hi == nil {
			hi = Int(n)
		}
		if lo == nil {
			lo = Zero
		}
		if isByte(at.Elem()) {
			if lo == Zero && hi == Zero {
				return Str("")
			}
			return FreshT("bytes", in.Type())
		}
		var xs []*Term
		for i := int64(0); i < n; i++ {
			xs = append(xs, x.load(st, mk("addr.i", SRef, "", 0, types.NewPointer(at.Elem()), b, Int(i)), at.Elem()))
		}
		return SubSeq(Seq(xs...), lo, hi)
	}
	if lo == nil {
		lo = Zero
	}
	if b.Sort == SStr {
		h := hi
		if h == nil {
			h = Len(b)
		}
		x.require(fr, st, And(Le(Zero, lo), Le(lo, h), Le(h, Len(b))), "slice-bounds", exprStr(in.X), in.Pos())
		if lo == Zero && hi == nil {
			return b
		}
		if b.Op == "str" && lo.Op == "int" && h.Op == "int" && lo.I >= 0 && h.I >= lo.I && h.I <= int64(len(b.S)) {
			return Str(b.S[lo.I:h.I])
		}
		return UF("substr", SStr, b, lo, h)
	}
	if hi == nil {
		hi = Len(b)
	}
	x.require(fr, st, And(Le(Zero, lo), Le(lo, hi), Le(hi, Len(b))), "slice-bounds", exprStr(in.X), in.Pos())
	return SubSeq(b, lo, hi)
}

// types known (by the model) to be the possible dynamic types of an interface term are decided
// through istype atoms; a successful assertion to a pointer type yields a non-nil pointer
// (well-formedness assumption: interfaces never hold typed nil pointers).
func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) bool {
	v := x.val(fr, st, in.X)
	T := in.AssertedType
	var cond, res *Term
	if isIface(T) {
		cond = x.ifaceCond(v, T)
		res = v
	} else {
		cond = IsType(v, tstr(T), T)
		res = Unbox(v, T)
	}
	cond = st.eval(cond)
	if !in.CommaOk {
		if cond != True {
			x.require(fr, st, cond, "type-assert", exprStr(in.X)+" is "+tstr(T), in.Pos())
		}
		x.assumeUnboxed(st, v, res, T)
		st.env[in] = res
		return true
	}
	if cond != True && cond != False {
		if !x.feasible(st, cond) {
			cond = False
		} else if !x.feasible(st, Not(cond)) {
			cond = True
		}
	}
	if cond == True {
		x.assumeUnboxed(st, v, res, T)
		st.env[in] = mk("tuple", STuple, "", 0, nil, res, True)
		return true
	}
	if cond == False {
		st.env[in] = mk("tuple", STuple, "", 0, nil, zero(T), False)
		return true
	}
	if !isIface(T) {
		if _, ok := T.Underlying().(*types.Pointer); ok && v.Op != "box" {
			st.assume(Implies(cond, Not(Eq(res, Nil))))
		}
	}
	st.env[in] = mk("tuple", STuple, "", 0, nil, Ite(cond, res, zero(T)), cond)
	return true
}

func (x *Exec) assumeUnboxed(st *State, v, res *Term, T types.Type) {
	if isIface(T) {
		return
	}
	if v.Op != "box" {
		st.assume(Not(Eq(v, Nil)))
		if _, ok := T.Underlying().(*types.Pointer); ok {
			st.assume(Not(Eq(res, Nil)))
		}
	}
}

func (x *Exec) ifaceCond(v *Term, T types.Type) *Term {
	if v.Op == "nil" {
		return False
	}
	if v.Op == "box" {
		return Bool(types.Implements(v.T, T.Underlying().(*types.Interface)))
	}
	return mk("istype", SBool, tstr(T), 0, T, v)
}

// ---------- models of the language runtime and of standard library functions ----------

func newErr(kind string) *Term {
	e := Fresh("err:"+kind, SRef, nil)
	return e
}

func (x *Exec) stdModel(fr *Frame, st *State, ci *CallInfo) ([]Outcome, bool) {
	ret := func(vs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, vals: vs}}, true }
	if strings.HasPrefix(ci.name, "builtin.") {
		switch ci.name[8:] {
		case "len", "cap":
			a := ci.args[0]
			if a.Sort == SRef {
				return ret(UF("maplen", SInt, x.mapVer(st, a)))
			}
			return ret(Len(a))
		case "append":
			a, b := ci.args[0], ci.args[1]
			if a.Sort == SStr {
				return ret(SCat(a, b))
			}
			return ret(Cat(a, b))
		case "copy":
			x.Ob(fname(x.top), "unsupported", "copy", false, "copy", token.NoPos)
			return ret(Fresh("n", SInt, nil))
		case "recover":
			k := UF("ghost.panicking", SRef)
			if v, ok := st.mem[k]; ok && v != Nil {
				st.mem[k] = Nil
				return ret(v)
			}
			return ret(Nil)
		case "print", "println":
			return ret()
		case "delete":
			m := ci.args[0]
			st.mem[UF("mapver", SRef, m)] = UF("mapdel", SStruct, x.mapVer(st, m), ci.args[1])
			return ret()
		case "ssa:wrapnilchk":
			return ret(ci.args[0])
		}
		return nil, false
	}
	if ci.fn != nil && ci.fn.Pkg != nil && strings.HasPrefix(ci.fn.Pkg.Pkg.Path(), modPath) {
		return nil, false
	}
	full := ""
	if ci.fn != nil {
		full = ci.fn.String()
	}
	switch full {
	case "fmt.Errorf", "errors.New", "golang.org/x/xerrors.Errorf", "golang.org/x/xerrors.New":
		e := newErr("errorf")
		st.assume(Not(Eq(e, Nil)))
		if x.eofErr != nil {
			st.assume(Not(Eq(e, x.eofErr))) // a new error value
		}
		return ret(e)
	case "log.Panic", "log.Panicf", "log.Panicln", "log.Fatal", "log.Fatalf":
		return []Outcome{{st: st, pval: UF("logpanic", SRef)}}, true
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print":
		return ret(x.freshResults(ci)...)
	case "strconv.Itoa":
		return ret(UF("itoa", SStr, ci.args[0]))
	case "strconv.AppendInt":
		if len(ci.args) == 3 && ci.args[2] == Int(10) {
			return ret(SCat(ci.args[0], UF("itoa", SStr, ci.args[1])))
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		if ci.args[1] == Int(10) {
			return ret(UF("itoa", SStr, ci.args[0]))
		}
	case "strings.Join", "strings.ReplaceAll", "strings.ToUpper", "strings.ToLower", "strings.Replace", "strings.TrimSpace":
		return ret(UF(full, SStr, ci.args...))
	case "strings.EqualFold", "strings.HasPrefix", "strings.HasSuffix":
		return ret(UF(full, SBool, ci.args...))
	case "unicode.IsDigit", "unicode.IsLetter", "unicode.IsSpace":
		return ret(UF(full, SBool, ci.args...))
	case "strings.Contains", "bytes.Contains":
		return ret(UF("contains", SBool, ci.args...))
	case "strings.ContainsRune", "bytes.ContainsRune", "strings.ContainsAny":
		if ci.args[1].Op == "int" {
			return ret(UF("contains", SBool, ci.args[0], Str(string(rune(ci.args[1].I)))))
		}
		if full == "strings.ContainsAny" && ci.args[1].Op == "str" && len(ci.args[1].S) == 1 {
			return ret(UF("contains", SBool, ci.args...))
		}
	case "strings.Count":
		return ret(UF(full, SInt, ci.args...))
	case "(time.Time).Format":
		return ret(UF("timefmt", SStr, ci.args[0], ci.args[1]))
	case "(time.Time).AppendFormat":
		return ret(SCat(ci.args[1], UF("timefmt", SStr, ci.args[0], ci.args[2])))
	case "strconv.FormatFloat":
		if ci.args[1] == Int('f') && ci.args[2] == Int(-1) {
			return ret(UF("ffloat", SStr, ci.args[0]))
		}
	case "strconv.AppendFloat":
		if ci.args[2] == Int('f') && ci.args[3] == Int(-1) {
			return ret(SCat(ci.args[0], UF("ffloat", SStr, ci.args[1])))
		}
	case "fmt.Sprintf":
		return ret(sprintf(ci.args[0], ci.args[1]))
	case "fmt.Sprint", "fmt.Sprintln":
		return ret(UF(full, SStr, ci.args...))
	}
	return nil, false
}
