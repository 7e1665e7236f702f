package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type layer struct {
	m      map[int]Val
	parent *layer
	depth  int
}

// State is one symbolic state: path condition, heap, languages.
type State struct {
	pc    []*Term
	heap  *layer
	subst map[int]Str // definitions of ALang and ASeg atoms
	langs map[int]*DFA
	model Model
	opq   []opqApp
	known []*Term // implied by pc (cache)

	trail  []int
	tpos   int
	trails *[][]int // alternatives discovered while executing one instruction
	frozen map[int]bool
	epoch  int // objects with an id >= epoch were allocated by the call under scrutiny
	steps  int
	assume []string
	neq    []struct{ a, b int } // language atoms known to differ
	notes  []string
}

type opqApp struct {
	fn  string
	arg []Val
	res Val
}

func (s *State) clone() *State {
	n := *s
	if len(s.heap.m) > 0 {
		f := s.heap
		if f.depth > 10 {
			f = flatten(f)
		}
		s.heap = &layer{m: map[int]Val{}, parent: f, depth: f.depth + 1}
		n.heap = &layer{m: map[int]Val{}, parent: f, depth: f.depth + 1}
	} else {
		n.heap = &layer{m: map[int]Val{}, parent: s.heap.parent, depth: s.heap.depth}
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.opq = s.opq[:len(s.opq):len(s.opq)]
	n.known = s.known[:len(s.known):len(s.known)]
	n.neq = s.neq[:len(s.neq):len(s.neq)]
	n.notes = s.notes[:len(s.notes):len(s.notes)]
	return &n
}

// flatten compacts everything above the base layer.
func flatten(l *layer) *layer {
	var ls []*layer
	for x := l; x != nil && x.parent != nil; x = x.parent {
		ls = append(ls, x)
	}
	base := l
	for base.parent != nil {
		base = base.parent
	}
	m := map[int]Val{}
	for i := len(ls) - 1; i >= 0; i-- {
		for k, v := range ls[i].m {
			m[k] = v
		}
	}
	return &layer{m: m, parent: base, depth: 1}
}

func (s *State) get(id int) (Val, bool) {
	for l := s.heap; l != nil; l = l.parent {
		if v, ok := l.m[id]; ok {
			return v, true
		}
	}
	return nil, false
}

func (s *State) set(id int, v Val) { s.heap.m[id] = v }

func (s *State) setSubst(id int, v Str) {
	n := make(map[int]Str, len(s.subst)+1)
	for k, x := range s.subst {
		n[k] = x
	}
	n[id] = v
	s.subst = n
}

func (s *State) setLang(id int, d *DFA) {
	n := make(map[int]*DFA, len(s.langs)+1)
	for k, x := range s.langs {
		n[k] = x
	}
	n[id] = d
	s.langs = n
}

func (s *State) hasPC(t *Term) bool {
	for i := len(s.pc) - 1; i >= 0; i-- {
		if s.pc[i] == t {
			return true
		}
	}
	for i := len(s.known) - 1; i >= 0; i-- {
		if s.known[i] == t {
			return true
		}
	}
	return false
}

func (s *State) addPC(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			s.addPC(a)
		}
		return
	}
	if t.isTrue() || s.hasPC(t) {
		return
	}
	s.pc = append(s.pc, t)
}

// norm resolves the definitions of language and segment atoms.
func (s *State) norm(x Str) Str {
	need := false
	for _, a := range x.a {
		if a.kind == ALang || a.kind == ASeg {
			if _, ok := s.subst[a.id]; ok {
				need = true
				break
			}
		}
	}
	if !need {
		return x
	}
	var parts []Str
	for _, a := range x.a {
		if a.kind == ALang || a.kind == ASeg {
			if d, ok := s.subst[a.id]; ok {
				parts = append(parts, s.norm(d))
				continue
			}
		}
		parts = append(parts, Str{[]Atom{a}})
	}
	return concatStr(parts...)
}

// ---- control signals used while executing one instruction

type infeasible struct{}

type goPanic struct {
	msg string
	val Val
}

type unsupported struct{ msg string }

func unsup(f string, args ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, args...)})
}

// choose picks one of n alternatives; the others are explored later.
func (x *Ex) choose(st *State, n int) int {
	if n == 1 {
		return 0
	}
	if n <= 0 {
		panic(infeasible{})
	}
	if x.ndec++; x.ndec&63 == 0 {
		x.timeUp()
	}
	if st.tpos < len(st.trail) {
		v := st.trail[st.tpos]
		st.tpos++
		return v
	}
	if st.trails == nil {
		unsup("choice outside of a forking instruction")
	}
	pre := append([]int{}, st.trail[:st.tpos]...)
	for i := n - 1; i >= 1; i-- {
		*st.trails = append(*st.trails, append(append([]int{}, pre...), i))
	}
	st.trail = append(pre, 0)
	st.tpos++
	return 0
}

// decide resolves a condition, forking when both outcomes are possible.
func (x *Ex) decide(st *State, cond *Term) bool {
	if cond.isTrue() {
		return true
	}
	if cond.isFalse() {
		return false
	}
	if st.hasPC(cond) {
		return true
	}
	neg := x.c.Not(cond)
	if st.hasPC(neg) {
		return false
	}
	if st.tpos < len(st.trail) {
		v := st.trail[st.tpos]
		st.tpos++
		if v == 1 {
			st.addPC(cond)
			x.refreshModel(st, cond)
			return true
		}
		st.addPC(neg)
		x.refreshModel(st, neg)
		return false
	}
	canT, canF := false, false
	var mT, mF Model
	if forkProf != nil {
		t0 := x.s.stats.Time
		defer func() { x.prof(t0, canT && canF) }()
	}
	if st.model != nil {
		if v, ok := x.c.eval(cond, st.model, map[int]bigInt{}); ok {
			x.s.stats.ModelHits++
			if v.Sign() != 0 {
				canT, mT = true, st.model
			} else {
				canF, mF = true, st.model
			}
		}
	}
	if x.lazy > 0 {
		canT, canF = true, true
	}
	if !canT {
		r, m := x.s.Check(st.pc, cond)
		canT = r != Unsat
		if r == Sat {
			mT = overlay(st.model, m)
		}
	}
	if !canF {
		r, m := x.s.Check(st.pc, neg)
		canF = r != Unsat
		if r == Sat {
			mF = overlay(st.model, m)
		}
	}
	switch {
	case canT && canF:
		if st.trails == nil {
			unsup("decision outside of a forking instruction")
		}
		pre := append([]int{}, st.trail[:st.tpos]...)
		*st.trails = append(*st.trails, append(append([]int{}, pre...), 0))
		st.trail = append(pre, 1)
		st.tpos++
		st.addPC(cond)
		st.model = mT
		return true
	case canT:
		st.known = append(st.known, cond)
		if mT != nil {
			st.model = mT
		}
		return true
	case canF:
		st.known = append(st.known, neg)
		if mF != nil {
			st.model = mF
		}
		return false
	}
	panic(infeasible{})
}

func overlay(base, m Model) Model {
	if base == nil {
		return m
	}
	n := make(Model, len(base)+len(m))
	for k, v := range base {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Ex) refreshModel(st *State, cond *Term) {
	if st.model != nil {
		if v, ok := x.c.eval(cond, st.model, map[int]bigInt{}); ok && v.Sign() != 0 {
			return
		}
	}
	// the slice of pc connected with cond (cond itself is part of pc already)
	r, m := x.s.Check(st.pc, cond)
	switch r {
	case Sat:
		st.model = overlay(st.model, m)
	case Unsat:
		panic(infeasible{})
	default:
		st.model = nil
	}
}

// assumeTerm adds a fact; the path ends when it contradicts the others.
func (x *Ex) assumeTerm(st *State, t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(infeasible{})
	}
	st.addPC(t)
	x.refreshModel(st, t)
}

// define adds a definitional constraint on fresh variables: always satisfiable
// together with the rest, so that no feasibility check is needed.
func (x *Ex) define(st *State, t *Term) {
	st.addPC(t)
	if st.model != nil {
		if v, ok := x.c.eval(t, st.model, map[int]bigInt{}); ok && v.Sign() != 0 {
			return
		}
		st.model = nil
	}
}

func (st *State) describe() string {
	var sb strings.Builder
	for _, t := range st.pc {
		fmt.Fprintf(&sb, "  %s\n", t.str(6))
	}
	return sb.String()
}

// forkProf counts decisions and forks by place (environment FORKS).
var forkProf = func() map[string]*[2]int {
	if os.Getenv("FORKS") == "" {
		return nil
	}
	return map[string]*[2]int{}
}()

var forkTime = map[string]time.Duration{}

func (x *Ex) prof(t0 time.Duration, fork bool) {
	k := "?"
	if x.cur != nil {
		k = fmt.Sprintf("%s %s %s", x.cur.Parent().Name(), x.w.pos(x.cur.Pos()), x.cur)
	}
	p := forkProf[k]
	if p == nil {
		p = new([2]int)
		forkProf[k] = p
	}
	p[0]++
	if fork {
		p[1]++
	}
	forkTime[k] += x.s.stats.Time - t0
}

func printForks() {
	var ks []string
	for k := range forkProf {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkTime[ks[i]] > forkTime[ks[j]] })
	for i, k := range ks {
		if i == 40 {
			break
		}
		fmt.Printf("%6d %6d %8.2fs %s\n", forkProf[k][0], forkProf[k][1], forkTime[k].Seconds(), k)
	}
}
