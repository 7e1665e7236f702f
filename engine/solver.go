package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Solver decides satisfiability of sets of terms with an SMT solver run as a
// separate process. Every term is sent once as a define-fun, so that shared
// subterms stay shared.

var slowLog time.Duration

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type proc struct {
	name   string
	cmd    *exec.Cmd
	in     *bufio.Writer
	out    *bufio.Reader
	sent   map[int]bool
	n      int
	killer func()
}

type SolverStats struct {
	Queries   int
	CacheHits int
	ModelHits int
	Unknowns  int
	Time      time.Duration
	ByBackend map[string]int
}

type Solver struct {
	c      *TCtx
	p      *proc
	cache  map[string]cres
	stats  SolverStats
	ufs    map[string][]*Term // applications of days0, in order of id
	limit  time.Duration
	lemmas map[[2]int]*Term
	csets  map[int]RSet // the sets character variables range over
}

type cres struct {
	r Result
	m Model
}

func NewSolver(c *TCtx) *Solver {
	return &Solver{c: c, cache: map[string]cres{}, limit: 10 * time.Second, lemmas: map[[2]int]*Term{}, stats: SolverStats{ByBackend: map[string]int{}}}
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.killer()
		s.p = nil
	}
}

func startProc(name string, args ...string) (*proc, error) {
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	var win io.Writer = in
	if f := os.Getenv("SMTLOG"); f != "" {
		fh, _ := os.Create(f)
		win = io.MultiWriter(in, fh)
	}
	p := &proc{name: name, cmd: cmd, in: bufio.NewWriterSize(win, 1<<16), out: bufio.NewReaderSize(out, 1<<16), sent: map[int]bool{}}
	p.killer = func() { in.Close(); cmd.Process.Kill(); cmd.Wait() }
	io.WriteString(p.in, "(set-option :print-success false)\n(set-option :produce-models true)\n")
	if name == "cvc5" {
		io.WriteString(p.in, "(set-logic ALL)\n")
	}
	return p, nil
}

func sortName(s Sort) string {
	switch s {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	}
	return "(_ BitVec 32)"
}

func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		return smtInt(t.c)
	case OBVConst:
		return fmt.Sprintf("#x%08x", t.c.Uint64())
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	}
	return fmt.Sprintf("t%d", t.id)
}

// define writes the declaration of t and of everything below it.
func (p *proc) define(c *TCtx, t *Term) {
	switch t.op {
	case OConst, OBVConst, OTrue, OFalse:
		return
	}
	if p.sent[t.id] {
		return
	}
	p.sent[t.id] = true
	for _, a := range t.args {
		if t.op != OUF {
			p.define(c, a)
		}
	}
	for _, l := range t.lin {
		p.define(c, l.t)
	}
	w := p.in
	if t.op == OVar || t.op == OUF {
		fmt.Fprintf(w, "(declare-const t%d %s)\n", t.id, sortName(t.sort))
		return
	}
	fmt.Fprintf(w, "(define-fun t%d () %s ", t.id, sortName(t.sort))
	names := map[Op]string{OMul: "*", OIte: "ite", ONot: "not", OAnd: "and", OOr: "or", OBVAnd: "bvand", OBVOr: "bvor", OBVXor: "bvxor", OBVNot: "bvnot", OBVAdd: "bvadd", OBVSub: "bvsub", OI2BV: "(_ int2bv 32)", OBV2I: "bv2nat", OBVShl: "bvshl", OBVShr: "bvlshr"}
	switch t.op {
	case OLin:
		var parts []string
		if t.c.Sign() != 0 {
			parts = append(parts, smtInt(t.c))
		}
		for _, l := range t.lin {
			if l.c.Cmp(bigOne) == 0 {
				parts = append(parts, ref(l.t))
			} else {
				parts = append(parts, "(* "+smtInt(l.c)+" "+ref(l.t)+")")
			}
		}
		if len(parts) == 1 {
			w.WriteString(parts[0])
		} else {
			w.WriteString("(+ " + strings.Join(parts, " ") + ")")
		}
	case ODiv:
		fmt.Fprintf(w, "(div %s %s)", ref(t.args[0]), t.c)
	case OMod:
		fmt.Fprintf(w, "(mod %s %s)", ref(t.args[0]), t.c)
	case OLe:
		fmt.Fprintf(w, "(<= %s 0)", ref(t.args[0]))
	case OEq:
		if len(t.args) == 2 {
			fmt.Fprintf(w, "(= %s %s)", ref(t.args[0]), ref(t.args[1]))
		} else {
			fmt.Fprintf(w, "(= %s 0)", ref(t.args[0]))
		}
	default:
		w.WriteString("(" + names[t.op])
		for _, a := range t.args {
			w.WriteString(" " + ref(a))
		}
		w.WriteString(")")
	}
	w.WriteString(")\n")
}

// slice returns the conjuncts of pc connected with goal through shared leaves.
func (s *Solver) slice(pc []*Term, goal *Term) []*Term {
	if goal == nil {
		return pc
	}
	seen := map[int]bool{}
	for _, v := range s.leavesUF(goal) {
		seen[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			hit := false
			ls := s.leavesUF(t)
			for _, v := range ls {
				if seen[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, t)
				for _, v := range ls {
					seen[v] = true
				}
			}
		}
	}
	return out
}

// leavesUF lists leaf ids. All applications of one function are connected with
// each other through a pseudo leaf, and with the leaves of their arguments.
func (s *Solver) leavesUF(t *Term) []int {
	ls := s.c.leaves(t)
	out := make([]int, 0, len(ls))
	for _, l := range ls {
		out = append(out, l.id)
	}
	return out
}

// Check decides pc /\ goal (goal may be nil). The model covers the leaves of
// the conjuncts that were sent.
func (s *Solver) Check(pc []*Term, goal *Term) (Result, Model) {
	if goal != nil && goal.isFalse() {
		return Unsat, nil
	}
	var q []*Term
	if goal != nil && goal.isTrue() {
		goal = nil
	}
	hasUF := false
	q = s.slice(pc, goal)
	if goal != nil {
		q = append(append([]*Term{}, q...), goal)
	}
	ids := make([]int, 0, len(q))
	for _, t := range q {
		if t.isFalse() {
			return Unsat, nil
		}
		if !t.isTrue() {
			ids = append(ids, t.id)
		}
	}
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, id := range ids {
		if id != last {
			fmt.Fprintf(&kb, "%d,", id)
		}
		last = id
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.stats.CacheHits++
		return r.r, r.m
	}
	_ = hasUF
	r, m := s.run(q)
	s.cache[key] = cres{r, m}
	return r, m
}

func (s *Solver) run(q []*Term) (Result, Model) {
	s.stats.Queries++
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	apps := s.days0Apps(q)
	accept := func(r Result, m Model, err error) (Result, Model, bool) {
		if err != nil {
			return Unknown, nil, false
		}
		if r == Sat && len(apps) > 0 {
			// days0 is uninterpreted: the model has to hold with its real values
			m2, ok := s.trueDays(q, m)
			return Sat, m2, ok
		}
		return r, m, r != Unknown
	}
	stages := [][]*Term{q}
	if len(apps) > 1 {
		// the facts about pairs of months are often not needed
		stages = append(stages, s.withLemmas(q, apps))
	}
	if len(apps) > 0 {
		stages = append(stages, s.withDefinitions(stages[len(stages)-1], apps))
	}
	for i, qs := range stages {
		l := s.limit
		if i < len(stages)-1 {
			l /= 5
		}
		r, m, err := s.ask("z3-new", qs, l)
		if r, m, ok := accept(r, m, err); ok {
			return r, m
		}
	}
	for _, b := range []string{"z3", "cvc5"} {
		r, m, err := s.ask(b, stages[len(stages)-1], 3*s.limit)
		if r, m, ok := accept(r, m, err); ok {
			return r, m
		}
	}
	if slowLog > 0 {
		fmt.Printf("UNKNOWN %v\n", time.Since(t0))
		for _, t := range q {
			fmt.Println("     ", t)
		}
	}
	s.stats.Unknowns++
	return Unknown, nil
}

func (s *Solver) ask(backend string, q []*Term, limit time.Duration) (Result, Model, error) {
	var p *proc
	if backend == "z3-new" {
		if s.p != nil && s.p.n > 4000 {
			s.p.killer()
			s.p = nil
		}
		if s.p == nil {
			np, err := startProc("z3-new", "-in", "-smt2")
			if err != nil {
				return Unknown, nil, err
			}
			s.p = np
		}
		p = s.p
	} else {
		args := []string{"-in", "-smt2"}
		if backend == "cvc5" {
			args = []string{"--incremental", "--lang=smt2"}
		}
		np, err := startProc(backend, args...)
		if err != nil {
			return Unknown, nil, err
		}
		p = np
		defer p.killer()
	}
	p.n++
	leaf := map[int]*Term{}
	for _, t := range q {
		p.define(s.c, t)
		for _, l := range s.c.leaves(t) {
			leaf[l.id] = l
		}
	}
	w := p.in
	w.WriteString("(push 1)\n")
	lids := make([]int, 0, len(leaf))
	for id := range leaf {
		lids = append(lids, id)
	}
	sort.Ints(lids)
	for _, id := range lids {
		t := leaf[id]
		if t.sort == SInt {
			if !t.iv.loInf {
				fmt.Fprintf(w, "(assert (>= t%d %s))\n", t.id, smtInt(big.NewInt(t.iv.lo)))
			}
			if !t.iv.hiInf {
				fmt.Fprintf(w, "(assert (<= t%d %s))\n", t.id, smtInt(big.NewInt(t.iv.hi)))
			}
		}
	}
	for _, id := range lids {
		set := s.csets[id]
		if leaf[id].op != OVar || len(set) < 2 {
			continue
		}
		w.WriteString("(assert (or")
		for _, g := range set {
			if g.lo == g.hi {
				fmt.Fprintf(w, " (= t%d %d)", id, g.lo)
			} else {
				fmt.Fprintf(w, " (and (>= t%d %d) (<= t%d %d))", id, g.lo, id, g.hi)
			}
		}
		w.WriteString("))\n")
	}
	for _, t := range q {
		fmt.Fprintf(w, "(assert %s)\n", ref(t))
	}
	fmt.Fprintf(w, "(check-sat)\n")
	w.Flush()
	type ans struct {
		s   string
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		for {
			l, err := p.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err == nil && l == "" {
				continue
			}
			ch <- ans{l, err}
			return
		}
	}()
	var a ans
	select {
	case a = <-ch:
	case <-time.After(limit):
		p.killer()
		if p == s.p {
			s.p = nil
		}
		return Unknown, nil, fmt.Errorf("timeout")
	}
	if a.err != nil {
		p.killer()
		if p == s.p {
			s.p = nil
		}
		return Unknown, nil, a.err
	}
	s.stats.ByBackend[backend]++
	switch a.s {
	case "unsat":
		w.WriteString("(pop 1)\n")
		return Unsat, nil, nil
	case "sat":
		m := Model{}
		if len(leaf) > 0 {
			w.WriteString("(get-value (")
			for id := range leaf {
				fmt.Fprintf(w, "t%d ", id)
			}
			w.WriteString("))\n")
			w.Flush()
			if err := readModel(p.out, m); err != nil {
				p.killer()
				if p == s.p {
					s.p = nil
				}
				return Unknown, nil, err
			}
		}
		w.WriteString("(pop 1)\n")
		return Sat, m, nil
	case "unknown":
		w.WriteString("(pop 1)\n")
		return Unknown, nil, nil
	}
	p.killer()
	if p == s.p {
		s.p = nil
	}
	return Unknown, nil, fmt.Errorf("%s: %s", backend, a.s)
}

// readModel parses ((t1 5) (t2 (- 3)) (t3 true) (t4 #x00000001)).
func readModel(r *bufio.Reader, m Model) error {
	depth := 0
	var toks []string
	var cur strings.Builder
	flush := func() {
		if cur.Len() > 0 {
			toks = append(toks, cur.String())
			cur.Reset()
		}
	}
	for {
		b, err := r.ReadByte()
		if err != nil {
			return err
		}
		switch b {
		case '(':
			flush()
			depth++
			toks = append(toks, "(")
		case ')':
			flush()
			depth--
			toks = append(toks, ")")
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			cur.WriteByte(b)
		}
		if depth == 0 && len(toks) > 0 {
			break
		}
	}
	i := 1
	for i < len(toks)-1 {
		if toks[i] != "(" {
			return fmt.Errorf("model: %v", toks)
		}
		name := toks[i+1]
		i += 2
		neg := false
		val := ""
		d := 1
		for d > 0 {
			switch toks[i] {
			case "(":
				d++
			case ")":
				d--
			case "-":
				neg = true
			default:
				val = toks[i]
			}
			i++
		}
		v := new(big.Int)
		switch {
		case val == "true":
			v.SetInt64(1)
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			v.SetString(val[2:], 16)
		case strings.HasPrefix(val, "#b"):
			v.SetString(val[2:], 2)
		default:
			if _, ok := v.SetString(val, 10); !ok {
				return fmt.Errorf("model value %q", val)
			}
		}
		if neg {
			v.Neg(v)
		}
		var id int
		fmt.Sscanf(name, "t%d", &id)
		m[id] = v
	}
	return nil
}

// ---- calendar lemmas
//
// days0(y,m) is the number of days from 0001-01-01 to the first of the month m
// of the (proleptic Gregorian, astronomical) year y. It is kept uninterpreted;
// the queries get, for every pair of applications, instances of
//   (y1,m1) = (y2,m2)        =>  days0_1 = days0_2
//   (y1,m1) immediately before (y2,m2)  =>  days0_2 = days0_1 + dim(y1,m1)
//   (y1,m1) earlier than (y2,m2)        =>  days0_2 >= days0_1 + dim(y1,m1)
// and the symmetric ones (selftest checks them against package time).

func (s *Solver) days0Apps(q []*Term) map[int]*Term {
	apps := map[int]*Term{}
	for _, t := range q {
		for _, l := range s.c.leaves(t) {
			if l.op == OUF && l.name == "days0" {
				apps[l.id] = l
			}
		}
	}
	return apps
}

// withDefinitions adds the closed form of every application of days0.
func (s *Solver) withDefinitions(q []*Term, apps map[int]*Term) []*Term {
	ids := make([]int, 0, len(apps))
	for id := range apps {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	out := append([]*Term{}, q...)
	for _, id := range ids {
		k := [2]int{id, -1}
		l, ok := s.lemmas[k]
		if !ok {
			l = s.c.days0Def(apps[id])
			s.lemmas[k] = l
		}
		out = append(out, l)
	}
	return out
}

func (c *TCtx) days0Def(a *Term) *Term {
	y, m := a.args[0], a.args[1]
	p := c.Sub(y, c.Int(1))
	d := c.Scale(p, big.NewInt(365))
	d = c.Add(d, c.FDiv(p, big.NewInt(4)))
	d = c.Sub(d, c.FDiv(p, big.NewInt(100)))
	d = c.Add(d, c.FDiv(p, big.NewInt(400)))
	cum := []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}
	cm := c.Int(cum[11])
	for i := 10; i >= 0; i-- {
		cm = c.Ite(c.Le(m, c.Int(int64(i+1))), c.Int(cum[i]), cm)
	}
	d = c.Add(d, cm)
	d = c.Add(d, c.Ite(c.And(c.Ge(m, c.Int(3)), c.Leap(y)), c.Int(1), c.Int(0)))
	return c.Eq(a, d)
}

func (s *Solver) withLemmas(q []*Term, apps map[int]*Term) []*Term {
	ids := make([]int, 0, len(apps))
	for id := range apps {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	out := append([]*Term{}, q...)
	for i := range ids {
		for j := i + 1; j < len(ids); j++ {
			k := [2]int{ids[i], ids[j]}
			l, ok := s.lemmas[k]
			if !ok {
				l = s.c.days0Lemma(apps[ids[i]], apps[ids[j]])
				s.lemmas[k] = l
			}
			if !l.isTrue() {
				out = append(out, l)
			}
		}
	}
	return out
}

// trueDays gives days0 its real values and evaluates the query again.
func (s *Solver) trueDays(q []*Term, m Model) (Model, bool) {
	n := make(Model, len(m))
	var us []*Term
	for _, t := range q {
		for _, l := range s.c.leaves(t) {
			if l.op == OUF {
				if l.name != "days0" {
					return nil, false
				}
				us = append(us, l)
			}
		}
	}
	for k, v := range m {
		n[k] = v
	}
	for _, l := range us {
		delete(n, l.id)
	}
	for _, l := range us {
		memo := map[int]bigInt{}
		y, ok1 := s.c.eval(l.args[0], n, memo)
		mo, ok2 := s.c.eval(l.args[1], n, memo)
		if !ok1 || !ok2 || !y.IsInt64() || !mo.IsInt64() || mo.Int64() < 1 || mo.Int64() > 12 {
			return nil, false
		}
		n[l.id] = big.NewInt(days0Const(y.Int64(), mo.Int64()))
	}
	memo := map[int]bigInt{}
	for _, t := range q {
		v, ok := s.c.eval(t, n, memo)
		if !ok || v.Sign() == 0 {
			return nil, false
		}
	}
	return n, true
}

func (c *TCtx) days0Lemma(a, b *Term) *Term {
	y1, m1, y2, m2 := a.args[0], a.args[1], b.args[0], b.args[1]
	k1 := c.Add(c.Scale(y1, big.NewInt(12)), m1)
	k2 := c.Add(c.Scale(y2, big.NewInt(12)), m2)
	d := c.Sub(k2, k1)
	imp := func(p, q *Term) *Term { return c.Or(c.Not(p), q) }
	dim1, dim2 := c.DaysIn(y1, m1), c.DaysIn(y2, m2)
	return c.And(
		imp(c.Eq0(d), c.Eq(a, b)),
		imp(c.Eq(d, c.Int(1)), c.Eq(b, c.Add(a, dim1))),
		imp(c.Eq(d, c.Int(-1)), c.Eq(a, c.Add(b, dim2))),
		imp(c.Ge(d, c.Int(2)), c.Ge(b, c.Add(a, c.Add(dim1, c.Int(28))))),
		imp(c.Le(d, c.Int(-2)), c.Ge(a, c.Add(b, c.Add(dim2, c.Int(28))))),
	)
}

// Leap is the leap year condition of year y.
func (c *TCtx) Leap(y *Term) *Term {
	// -y is a leap year when y is: keep one form of the two
	if y.op == OLin && len(y.lin) > 0 && y.lin[0].c.Sign() < 0 {
		y = c.Neg(y)
	}
	m := func(k int64) *Term { return c.Eq0(c.FMod(y, big.NewInt(k))) }
	return c.And(m(4), c.Or(c.Not(m(100)), m(400)))
}

// DaysIn is the number of days of month m (1..12) of year y.
func (c *TCtx) DaysIn(y, m *Term) *Term {
	if v, ok := m.int64(); ok {
		switch v {
		case 2:
			return c.Ite(c.Leap(y), c.Int(29), c.Int(28))
		case 4, 6, 9, 11:
			return c.Int(30)
		}
		return c.Int(31)
	}
	is := func(v int64) *Term { return c.Eq(m, c.Int(v)) }
	return c.Ite(is(2), c.Ite(c.Leap(y), c.Int(29), c.Int(28)), c.Ite(c.Or(is(4), is(6), is(9), is(11)), c.Int(30), c.Int(31)))
}

func leapYear(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// days0 evaluated: days before the first of (y,m), counted from 0001-01-01.
func days0Const(y, m int64) int64 {
	p := y - 1
	d := 365*p + floorDiv(p, 4) - floorDiv(p, 100) + floorDiv(p, 400)
	cum := []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}
	d += cum[m-1]
	if m > 2 && leapYear(y) {
		d++
	}
	return d
}

func (c *TCtx) Days0(y, m *Term) *Term {
	yv, ok1 := y.int64()
	mv, ok2 := m.int64()
	if ok1 && ok2 && mv >= 1 && mv <= 12 && yv > -1000000 && yv < 1000000 {
		return c.Int(days0Const(yv, mv))
	}
	return c.UF("days0", SInt, ival{lo: -400000000000, hi: 400000000000}, y, m)
}
