package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	name   string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	cache  map[string]string
	Q      int           // queries sent
	Hits   int           // cache hits
	Time   time.Duration // solver time
	Unk    int
	script string // last script
}

func NewSolver() *Solver {
	s := &Solver{cache: map[string]string{}}
	s.start()
	return s
}

var solverBin = "z3-new"

func (s *Solver) start() {
	bin := solverBin
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.name = bin
	s.cmd = exec.Command(bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		fatalf("cannot start %s: %v", bin, err)
	}
	io.WriteString(s.in, "(set-option :timeout 5000)\n(set-option :print-success false)\n(declare-sort Str 0)\n(declare-sort Float 0)\n(declare-sort Ref 0)\n(declare-sort Seq_ 0)\n(declare-sort Struct 0)\n(declare-sort Tuple 0)\n(declare-const nil Ref)\n(declare-const nilseq Seq_)\n(declare-fun typeof (Ref) Int)\n(declare-fun strlen (Str) Int)\n(assert (= (typeof nil) 0))\n")
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

type enc struct {
	decl   []string
	names  map[string]string
	memo   map[*Term]string
	ax     []string
	done   map[*Term]bool
	strs   []string
	floats []string
	allocs []string
	extra  []*Term
	tags   map[string]int
	forSMT bool
}

func (e *enc) fn(key string, args []Sort, ret Sort) string {
	k := key
	for _, a := range args {
		k += "|" + a.smt()
	}
	k += ">" + ret.smt()
	if n, ok := e.names[k]; ok {
		return n
	}
	n := fmt.Sprintf("f%d", len(e.names))
	e.names[k] = n
	var as []string
	for _, a := range args {
		as = append(as, a.smt())
	}
	e.decl = append(e.decl, fmt.Sprintf("(declare-fun %s (%s) %s) ; %s", n, strings.Join(as, " "), ret.smt(), strings.ReplaceAll(key, "\n", " ")))
	return n
}

func (e *enc) tag(s string) int {
	if n, ok := e.tags[s]; ok {
		return n
	}
	n := len(e.tags) + 1
	e.tags[s] = n
	return n
}

func (e *enc) app(key string, ret Sort, args ...*Term) string {
	var ss []Sort
	var as []string
	for _, a := range args {
		as = append(as, e.t(a))
		ss = append(ss, a.Sort)
	}
	n := e.fn(key, ss, ret)
	if len(as) == 0 {
		return n
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

func smtInt(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return strconv.FormatInt(i, 10)
}

func (e *enc) t(t *Term) string {
	if r, ok := e.memo[t]; ok {
		return r
	}
	r := e.t0(t)
	e.memo[t] = r
	return r
}

func (e *enc) t0(t *Term) string {
	switch t.Op {
	case "int":
		return smtInt(t.I)
	case "bool":
		if t.I == 1 {
			return "true"
		}
		return "false"
	case "nil":
		return "nil"
	case "nilseq":
		return "nilseq"
	case "str":
		n := e.fn("str:"+strconv.Quote(t.S), nil, SStr)
		e.strs = append(e.strs, n)
		e.ax = append(e.ax, fmt.Sprintf("(= (strlen %s) %d)", n, len(t.S)))
		return n
	case "float":
		n := e.fn("float:"+t.S, nil, SFloat)
		e.floats = append(e.floats, n)
		return n
	case "alloc", "global", "errconst", "func":
		n := e.fn(t.Op+":"+t.S+strconv.FormatInt(t.I, 10), nil, SRef)
		e.allocs = append(e.allocs, n)
		return n
	case "+":
		var p []string
		for _, a := range t.A {
			p = append(p, e.t(a))
		}
		return "(+ " + strings.Join(p, " ") + ")"
	case "*c":
		return "(* " + smtInt(t.I) + " " + e.t(t.A[0]) + ")"
	case "ge0":
		return "(>= " + e.t(t.A[0]) + " 0)"
	case "eq0":
		return "(= " + e.t(t.A[0]) + " 0)"
	case "not":
		return "(not " + e.t(t.A[0]) + ")"
	case "and":
		var p []string
		for _, a := range t.A {
			p = append(p, e.t(a))
		}
		return "(and " + strings.Join(p, " ") + ")"
	case "ite":
		return "(ite " + e.t(t.A[0]) + " " + e.t(t.A[1]) + " " + e.t(t.A[2]) + ")"
	case "eq":
		if t.A[0].Sort != t.A[1].Sort {
			return e.app("eqmixed", SBool, t.A...)
		}
		return "(= " + e.t(t.A[0]) + " " + e.t(t.A[1]) + ")"
	case "istype":
		if t.T != nil && isIface(t.T) {
			r := e.app("istype:"+t.S, SBool, t.A[0])
			e.ax = append(e.ax, fmt.Sprintf("(=> %s (not (= %s nil)))", r, e.t(t.A[0])))
			return r
		}
		return fmt.Sprintf("(= (typeof %s) %d)", e.t(t.A[0]), e.tag(t.S))
	case "box":
		r := e.app("box:"+t.S, SRef, t.A...)
		e.ax = append(e.ax, fmt.Sprintf("(= (typeof %s) %d)", r, e.tag(t.S)), fmt.Sprintf("(not (= %s nil))", r))
		return r
	case "slen":
		r := "(strlen " + e.t(t.A[0]) + ")"
		e.ax = append(e.ax, "(>= "+r+" 0)")
		return r
	case "len":
		r := e.app("len", SInt, t.A...)
		e.ax = append(e.ax, "(>= "+r+" 0)")
		return r
	case "isnil":
		if t.A[0].Sort == SSeq {
			e.ax = append(e.ax, fmt.Sprintf("(=> (= %s nilseq) (= %s 0))", e.t(t.A[0]), e.t(Len(t.A[0]))))
			return "(= " + e.t(t.A[0]) + " nilseq)"
		}
		r := e.app("isnil", SBool, t.A[0])
		e.ax = append(e.ax, fmt.Sprintf("(=> %s (= %s 0))", r, e.t(Len(t.A[0]))))
		return r
	case "at":
		s, i := t.A[0], t.A[1]
		r := e.app("at", t.Sort, s, i)
		switch s.Op {
		case "snoc":
			base := mk("at", t.Sort, "", 0, t.T, s.A[0], i)
			if s.A[1].Sort == t.Sort {
				e.ax = append(e.ax, fmt.Sprintf("(= %s (ite (= %s %s) %s %s))", r, e.t(i), e.t(Len(s.A[0])), e.t(s.A[1]), e.t(base)))
			}
		case "seq":
			for k, x := range s.A {
				if x.Sort == t.Sort {
					e.ax = append(e.ax, fmt.Sprintf("(=> (= %s %d) (= %s %s))", e.t(i), k, r, e.t(x)))
				}
			}
		}
		return r
	}
	// generic uninterpreted application
	key := t.Op + ":" + t.S + ":" + strconv.FormatInt(t.I, 10)
	if t.Op == "sym" {
		key = "sym:" + t.S
	}
	r := e.app(key, t.Sort, t.A...)
	if t.Op == "addr.f" || t.Op == "addr.i" || t.Op == "closure" {
		e.ax = append(e.ax, fmt.Sprintf("(not (= %s nil))", r))
	}
	return r
}

func isIntLike(t *Term) bool { return t.Sort == SInt }

// relevant conjuncts: those sharing symbols (transitively) with the goal
func symsOf(t *Term, memo map[*Term]map[*Term]bool) map[*Term]bool {
	if m, ok := memo[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	t.walk(map[*Term]bool{}, func(x *Term) {
		switch x.Op {
		case "sym", "alloc":
			m[x] = true
		}
	})
	memo[t] = m
	return m
}

var symMemo = map[*Term]map[*Term]bool{}

func slice(pc []*Term, goal *Term) []*Term {
	need := map[*Term]bool{}
	for s := range symsOf(goal, symMemo) {
		need[s] = true
	}
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			ss := symsOf(c, symMemo)
			hit := len(ss) == 0
			for s := range ss {
				if need[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for s := range ss {
					need[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// Sat checks satisfiability of the conjunction. Returns "sat", "unsat" or "unknown".
func (s *Solver) Sat(cs []*Term) string {
	uniq := map[*Term]bool{}
	var list []*Term
	for _, c := range cs {
		if c == False {
			return "unsat"
		}
		if c == True || uniq[c] {
			continue
		}
		uniq[c] = true
		list = append(list, c)
	}
	if len(list) == 0 {
		return "sat"
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	var kb strings.Builder
	for _, c := range list {
		if uniq[Not(c)] {
			return "unsat"
		}
		kb.WriteString(strconv.Itoa(c.id))
		kb.WriteByte(' ')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.Hits++
		return r
	}
	e := &enc{names: map[string]string{}, memo: map[*Term]string{}, tags: map[string]int{}}
	var asserts []string
	for _, c := range list {
		asserts = append(asserts, e.t(c))
	}
	var b strings.Builder
	b.WriteString("(push)\n")
	for _, d := range e.decl {
		b.WriteString(d + "\n")
	}
	if len(e.strs) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(e.strs, " ") + "))\n")
	}
	if len(e.floats) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(e.floats, " ") + "))\n")
	}
	if len(e.allocs) > 0 {
		b.WriteString("(assert (distinct nil " + strings.Join(e.allocs, " ") + "))\n")
	}
	for _, a := range e.ax {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, a := range asserts {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(check-sat)\n(pop)\n")
	t0 := time.Now()
	s.Q++
	s.script = b.String()
	io.WriteString(s.in, s.script)
	r := ""
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			fatalf("solver died: %v\n%s", err, s.script)
		}
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "(error") {
			fatalf("solver error: %s\n%s", line, s.script)
		}
		if line == "sat" || line == "unsat" || line == "unknown" {
			r = line
			break
		}
	}
	s.Time += time.Since(t0)
	if r == "unknown" {
		s.Unk++
	}
	s.cache[key] = r
	return r
}

// Valid: do the assumptions entail the goal?
func (s *Solver) Valid(pc []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	if goal == False { // is pc contradictory?
		return s.Sat(pc) == "unsat"
	}
	ng := Not(goal)
	var parts []*Term
	if ng.Op == "and" {
		parts = ng.A
	} else {
		parts = []*Term{ng}
	}
	cs := append(slice(pc, goal), parts...)
	return s.Sat(cs) == "unsat"
}

// Feasible: may cond hold under pc? (unknown counts as feasible)
func (s *Solver) Feasible(pc []*Term, cond *Term) bool {
	if cond == False {
		return false
	}
	return s.Sat(append(slice(pc, cond), cond)) != "unsat"
}
