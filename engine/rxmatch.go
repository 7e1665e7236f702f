package main

import (
	"fmt"
	"os"
	"regexp/syntax"
	"sort"
)

// matchTerm computes "s is in d" as a term, without decisions; it fails on
// atoms whose structure would have to be decided first.
func (x *Ex) matchTerm(st *State, d *DFA, s Str) (*Term, bool) {
	fs := map[int]*Term{0: x.c.T}
	for _, a := range s.a {
		switch a.kind {
		case ALit:
			for _, y := range symsOf(a.lit) {
				fs = x.stepStates(d, fs, x.c.Int(int64(y)))
			}
		case AChar:
			fs = x.stepStates(d, fs, a.t)
		case ASeg:
			n, ok := x.stepSeg(d, fs, a)
			if !ok {
				return nil, false
			}
			fs = n
		default:
			return nil, false
		}
	}
	var ors []*Term
	for q, f := range fs {
		if d.acc[q] {
			ors = append(ors, f)
		}
	}
	return x.c.Or(ors...), true
}

// stepSeg: every symbol of the class leads from a state to one state only.
func (x *Ex) stepSeg(d *DFA, fs map[int]*Term, a Atom) (map[int]*Term, bool) {
	out := map[int][]*Term{}
	for q, f := range fs {
		seen := map[int]bool{}
		cur := q
		for i := int64(0); ; i++ {
			// where does the class lead from cur?
			to, some, all := -1, false, false
			for _, e := range d.edges[cur] {
				if e.set.disjoint(a.set) {
					continue
				}
				if some {
					return nil, false
				}
				some = true
				to = e.to
				all = a.set.subset(e.set)
			}
			if some && !all {
				return nil, false
			}
			if some && to == cur {
				out[cur] = append(out[cur], x.c.And(f, x.c.Ge(a.t, x.c.Int(i))))
				break
			}
			out[cur] = append(out[cur], x.c.And(f, x.c.Eq(a.t, x.c.Int(i))))
			if !some {
				break
			}
			if seen[cur] {
				return nil, false
			}
			seen[cur] = true
			cur = to
		}
	}
	r := map[int]*Term{}
	for q, cs := range out {
		if o := x.c.Or(cs...); !o.isFalse() {
			r[q] = o
		}
	}
	return r, true
}

// approx is a language containing every value of an atom.
func (x *Ex) approx(st *State, a Atom) *DFA {
	switch a.kind {
	case ALit:
		return litDFA(a.lit)
	case AChar:
		return setDFA(x.crange(a.t))
	case ASeg:
		if a.t.iv.lo > 0 {
			return setDFA(a.set).concat(classStar(a.set))
		}
		return classStar(a.set)
	case ALang:
		return x.lang(st, a.id)
	case AFmt:
		r, _ := compileRegex(`^-?[0-9]+$`)
		return r.full
	}
	return anyDFA
}

// match decides whether s is in d; the result may still be a term.
func (x *Ex) match(st *State, d *DFA, s Str) *Term {
	for tries := 0; ; tries++ {
		if tries > 300 {
			unsup("match of text of any length")
		}
		s = st.norm(s)
		// one language atom alone
		if len(s.a) == 1 && s.a[0].kind == ALang {
			l := x.lang(st, s.a[0].id)
			yes := l.inter(d)
			if yes.isEmpty() {
				return x.c.F
			}
			no := l.minus(d)
			if no.isEmpty() {
				return x.c.T
			}
			return x.c.Bool(x.pickLang(st, s.a[0].id, yes, no) == 0)
		}
		// decided for every value?
		hasLang, bad := -1, -1
		for i, a := range s.a {
			if a.kind == ALang && hasLang < 0 {
				hasLang = i
			}
			if (a.kind == AFmt || a.kind == AOpq) && bad < 0 {
				bad = i
			}
		}
		if hasLang >= 0 || bad >= 0 {
			all := litDFA("")
			for _, a := range s.a {
				all = all.concat(x.approx(st, a))
			}
			if all.subset(d) {
				return x.c.T
			}
			if all.inter(d).isEmpty() {
				return x.c.F
			}
		}
		if bad >= 0 {
			a := s.a[bad]
			if a.kind == AFmt {
				s = concatStr(Str{s.a[:bad:bad]}, x.expandFmt(st, a), Str{s.a[bad+1:]})
			} else if v, ok := x.forceOpq(st, a); ok {
				s = concatStr(Str{s.a[:bad:bad]}, v, Str{s.a[bad+1:]})
			} else {
				unsup("match of opaque text")
			}
			continue
		}
		if hasLang < 0 {
			if t, ok := x.matchTerm(st, d, s); ok {
				return t
			}
			// a segment whose structure matters
			done := false
			for _, a := range s.a {
				if a.kind == ASeg {
					if x.decide(st, x.c.Eq(a.t, x.c.Int(0))) {
						st.setSubst(a.id, Str{})
					} else {
						x.splitSeg(st, a, false)
					}
					done = true
					break
				}
			}
			if !done {
				unsup("match")
			}
			continue
		}
		// split the first language atom by the state it leads to
		before := litDFA("")
		for _, a := range s.a[:hasLang] {
			before = before.concat(x.approx(st, a))
		}
		after := litDFA("")
		for _, a := range s.a[hasLang+1:] {
			after = after.concat(x.approx(st, a))
		}
		// states before the atom
		starts := reach(d, map[int]bool{0: true}, before)
		id := s.a[hasLang].id
		l := x.lang(st, id)
		// classes of words: by the set of verdicts over all start states
		type cls struct {
			l    *DFA
			key  string
			done bool
		}
		parts := []*DFA{l}
		for q0 := range starts {
			dq := d.from(q0)
			var next []*DFA
			for _, p := range parts {
				byRest := map[int]*DFA{}
				var order []int
				rest := p
				for q := range dq.edges {
					to := p.inter(dq.toStates(map[int]bool{q: true}))
					if to.isEmpty() {
						continue
					}
					rest = rest.minus(to)
					// verdict of what follows
					r := dq.from(q).inter(after)
					k := r.id
					if after.subset(r) {
						k = -1 // all
					} else if r.isEmpty() {
						k = -2
					}
					if o, ok := byRest[k]; ok {
						byRest[k] = o.union(to)
					} else {
						byRest[k] = to
						order = append(order, k)
					}
				}
				if !rest.isEmpty() {
					if o, ok := byRest[-2]; ok {
						byRest[-2] = o.union(rest)
					} else {
						byRest[-2] = rest
						order = append(order, -2)
					}
				}
				sort.Ints(order)
				for _, k := range order {
					next = append(next, byRest[k])
				}
			}
			parts = next
		}
		if len(parts) > 1 {
			x.pickLang(st, id, parts...)
			continue
		}
		// no progress by language: look at its characters
		x.expand(st, id)
	}
}

// reach: the states of d reachable from qs over words of l.
func reach(d *DFA, qs map[int]bool, l *DFA) map[int]bool {
	type pq struct{ p, q int }
	out := map[int]bool{}
	seen := map[pq]bool{}
	var st []pq
	for q := range qs {
		st = append(st, pq{0, q})
		seen[pq{0, q}] = true
	}
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		if l.acc[c.p] {
			out[c.q] = true
		}
		for _, e := range l.edges[c.p] {
			for _, f := range d.edges[c.q] {
				if e.set.disjoint(f.set) {
					continue
				}
				n := pq{e.to, f.to}
				if !seen[n] {
					seen[n] = true
					st = append(st, n)
				}
			}
		}
	}
	return out
}

// ---- submatches

type elem struct {
	t   *Term // symbol
	seg *Atom
}

type rxRes struct {
	cond *Term
	caps []int // element positions, -1: none
}

// submatch finds the leftmost-first match and returns the 2*ncap+2 positions
// in the flattened string.
func (x *Ex) submatch(st *State, r *Regex, s Str) (Str, []elem, []int) {
	for tries := 0; ; tries++ {
		s = x.flat(st, s)
		var es []elem
		for i := range s.a {
			a := s.a[i]
			switch a.kind {
			case ALit:
				for _, y := range symsOf(a.lit) {
					es = append(es, elem{t: x.c.Int(int64(y))})
				}
			case AChar:
				es = append(es, elem{t: a.t})
			case ASeg:
				es = append(es, elem{seg: &s.a[i]})
			}
		}
		if len(es) > 200 {
			unsup("string too long for a submatch")
		}
		m := &btk{x: x, r: r, es: es, dead: map[[2]int]bool{}}
		anch := r.prog.StartCond()&syntax.EmptyBeginText != 0
		for start := 0; start <= len(es); start++ {
			caps := make([]int, 2*r.ncap+2)
			for i := range caps {
				caps[i] = -1
			}
			caps[0] = start
			m.run(r.prog.Start, start, caps, x.c.T, map[int]bool{})
			if m.full || anch {
				break
			}
		}
		if m.peel >= 0 && m.needPeel {
			a := es[m.peel].seg
			if tries > 30 {
				unsup("ambiguous segment in a submatch")
			}
			if x.decide(st, x.c.Eq(a.t, x.c.Int(0))) {
				st.setSubst(a.id, Str{})
			} else {
				x.splitSeg(st, *a, false)
			}
			continue
		}
		for i, q := range m.res {
			if i == len(m.res)-1 {
				if !m.full && !x.decide(st, q.cond) {
					if os.Getenv("RXDEBUG") != "" {
						fmt.Println("SUBMATCH", s.String())
						for _, q := range m.res {
							fmt.Println(q.caps, q.cond)
						}
						_, mm := x.s.run(st.pc)
						fmt.Printf("%q\n", x.concStr(st, mm, s))
						for _, q := range m.res {
							v, _ := x.c.eval(q.cond, mm, map[int]bigInt{})
							fmt.Println(v)
						}
					}
					unsup("submatch of %s is not determined", r.src)
				}
				return s, es, q.caps
			}
			if x.decide(st, q.cond) {
				return s, es, q.caps
			}
		}
		panic(infeasible{})
	}
}

type btk struct {
	x        *Ex
	r        *Regex
	es       []elem
	dead     map[[2]int]bool
	res      []rxRes
	full     bool // an unconditional result was found
	peel     int
	needPeel bool
	steps    int
}

// run explores matches in priority order; it reports whether any was found.
func (m *btk) run(pc, pos int, caps []int, cond *Term, eps map[int]bool) bool {
	if m.full || m.dead[[2]int{pc, pos}] {
		return false
	}
	if eps[pc] {
		return false
	}
	m.steps++
	if m.steps > 200000 {
		unsup("submatch is too complex")
	}
	x := m.x
	in := &m.r.prog.Inst[pc]
	found := false
	ecopy := func() map[int]bool {
		n := make(map[int]bool, len(eps)+1)
		for k := range eps {
			n[k] = true
		}
		n[pc] = true
		return n
	}
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		e := ecopy()
		a := m.run(int(in.Out), pos, caps, cond, e)
		b := m.run(int(in.Arg), pos, caps, cond, e)
		found = a || b
		if len(eps) > 0 {
			return found // the verdict may depend on the way here
		}
	case syntax.InstNop:
		found = m.run(int(in.Out), pos, caps, cond, ecopy())
		if len(eps) > 0 {
			return found
		}
	case syntax.InstCapture:
		n := append([]int{}, caps...)
		if int(in.Arg) < len(n) {
			n[in.Arg] = pos
		}
		found = m.run(int(in.Out), pos, n, cond, ecopy())
		if len(eps) > 0 {
			return found
		}
	case syntax.InstEmptyWidth:
		op := syntax.EmptyOp(in.Arg)
		if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
			if op&syntax.EmptyBeginLine != 0 {
				unsup("multi-line anchor")
			}
			// segments before could be empty, but then pos is not needed
			c := x.c.T
			for _, e := range m.es[:pos] {
				if e.seg == nil {
					c = x.c.F
				} else {
					c = x.c.And(c, x.c.Eq(e.seg.t, x.c.Int(0)))
				}
			}
			if c.isFalse() {
				return false
			}
			cond = x.c.And(cond, c)
		}
		if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && pos != len(m.es) {
			if op&syntax.EmptyEndLine != 0 {
				unsup("multi-line anchor")
			}
			c := x.c.T
			for _, e := range m.es[pos:] {
				if e.seg == nil {
					c = x.c.F
				} else {
					c = x.c.And(c, x.c.Eq(e.seg.t, x.c.Int(0)))
				}
			}
			if c.isFalse() {
				return false
			}
			cond = x.c.And(cond, c)
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			unsup("word boundary in a submatch")
		}
		found = m.run(int(in.Out), pos, caps, cond, ecopy())
		if len(eps) > 0 {
			return found
		}
	case syntax.InstMatch:
		if cond.isFalse() {
			return true
		}
		n := append([]int{}, caps...)
		n[1] = pos
		// the same captures as the previous result: join
		if k := len(m.res); k > 0 && sameInts(m.res[k-1].caps, n) {
			m.res[k-1].cond = x.c.Or(m.res[k-1].cond, cond)
			if m.res[k-1].cond.isTrue() {
				m.full = true
			}
			return true
		}
		m.res = append(m.res, rxRes{cond, n})
		if cond.isTrue() {
			m.full = true
		}
		return true
	case syntax.InstFail:
	default:
		if pos == len(m.es) {
			break
		}
		set := instSet(in)
		e := m.es[pos]
		if e.seg == nil {
			c := x.inSet(e.t, set)
			if c.isFalse() {
				break
			}
			found = m.run(int(in.Out), pos+1, caps, x.c.And(cond, c), map[int]bool{})
			break
		}
		// a segment: consumed as a whole by a loop over this instruction, or empty
		f1, f2 := false, false
		if !set.disjoint(e.seg.set) {
			if e.seg.set.subset(set) && m.loops(pc) {
				f1 = m.run(int(in.Out), pos+1, caps, x.c.And(cond, x.c.Ge(e.seg.t, x.c.Int(1))), map[int]bool{})
			} else {
				m.needPeel = true
				m.peel = pos
			}
		}
		f2 = m.run(pc, pos+1, caps, x.c.And(cond, x.c.Eq(e.seg.t, x.c.Int(0))), map[int]bool{})
		found = f1 || f2
	}
	if !found && !m.full {
		m.dead[[2]int{pc, pos}] = true
	}
	return found
}

// loops: the instruction can be reached again right after itself.
func (m *btk) loops(pc int) bool {
	seen := map[int]bool{}
	st := []int{int(m.r.prog.Inst[pc].Out)}
	for len(st) > 0 {
		p := st[len(st)-1]
		st = st[:len(st)-1]
		if p == pc {
			return true
		}
		if seen[p] {
			continue
		}
		seen[p] = true
		in := &m.r.prog.Inst[p]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			st = append(st, int(in.Out), int(in.Arg))
		case syntax.InstNop:
			st = append(st, int(in.Out))
		}
	}
	return false
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sub extracts elements i..j of a flattened string.
func (x *Ex) sub(es []elem, i, j int) Str {
	if i < 0 || j < i {
		return Str{}
	}
	var parts []Str
	for _, e := range es[i:j] {
		if e.seg != nil {
			parts = append(parts, Str{[]Atom{*e.seg}})
		} else {
			parts = append(parts, x.charStr(e.t))
		}
	}
	return concatStr(parts...)
}

// findSubmatch: the strings of all groups, or nil when there is no match.
func (x *Ex) findSubmatch(st *State, r *Regex, s Str) ([]Str, bool) {
	if !x.decide(st, x.match(st, r.full, s)) {
		return nil, false
	}
	s = st.norm(s)
	nl := 0
	for _, a := range s.a {
		if a.kind == ALang {
			nl++
		}
	}
	out := make([]Str, r.ncap+1)
	if nl > 1 || (nl == 1 && len(s.a) > 1) {
		// resolved when looked at
		for g := range out {
			out[g] = Str{[]Atom{{kind: AOpq, tag: "cap", id: g, args: []Val{Rx{r}, s}}}}
		}
		// groups at the borders of atoms need no look at the contents
		for g := range out {
			if v, ok := x.borderGroup(st, r, s, g); ok {
				out[g] = v
			}
		}
		return out, true
	}
	_, es, caps := x.submatch(st, r, s)
	for g := range out {
		out[g] = x.sub(es, caps[2*g], caps[2*g+1])
	}
	return out, true
}

// borderGroup: every accepting run of the program over every value of s has
// group g at the same borders of atoms (or nowhere).
func (x *Ex) borderGroup(st *State, r *Regex, s Str, g int) (Str, bool) {
	if !anchored(r) {
		return Str{}, false
	}
	if g == 0 {
		return s, true
	}
	md, err := markedDFA(r, g)
	if err != nil {
		return Str{}, false
	}
	// all marked versions of s
	mk := classStar(RSet{{markOpen, markClose}})
	all := mk
	for _, a := range s.a {
		all = all.concat(interleave(x.approx(st, a))).concat(mk)
	}
	runs := md.inter(all)
	if runs.isEmpty() {
		return Str{}, false
	}
	// where is it? try nowhere, then all pairs of borders
	plain := litDFA("")
	for _, a := range s.a {
		plain = plain.concat(x.approx(st, a))
	}
	if runs.subset(plain) {
		return Str{}, true
	}
	// literals may have to be cut: work on single symbols of literals
	var at []Atom
	for _, a := range s.a {
		if a.kind == ALit {
			for _, y := range symsOf(a.lit) {
				at = append(at, Atom{kind: ALit, lit: symString([]int32{y})})
			}
		} else {
			at = append(at, a)
		}
	}
	// the border of one mark, the other one being anywhere
	border := func(mark, other int32, from int) int {
		for i := from; i <= len(at); i++ {
			any := classStar(RSet{{other, other}})
			l := any
			for k := 0; k <= len(at); k++ {
				if k == i {
					l = l.concat(setDFA(RSet{{mark, mark}})).concat(any)
				}
				if k < len(at) {
					l = l.concat(interleaveWith(x.approx(st, at[k]), other)).concat(any)
				}
			}
			if runs.subset(l) {
				return i
			}
		}
		return -1
	}
	i := border(markOpen, markClose, 0)
	if i < 0 {
		return Str{}, false
	}
	j := border(markClose, markOpen, i)
	if j < 0 {
		return Str{}, false
	}
	return concatStr(Str{at[i:j:j]}), true
}

// anchored: every match begins at the beginning and ends at the end of the text.
func anchored(r *Regex) bool {
	prog := r.prog
	if prog.StartCond()&syntax.EmptyBeginText == 0 {
		return false
	}
	seen := map[int]bool{}
	st := []int{prog.Start}
	for i := range prog.Inst {
		switch in := &prog.Inst[i]; in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			st = append(st, int(in.Out))
		}
	}
	for len(st) > 0 {
		pc := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[pc] {
			continue
		}
		seen[pc] = true
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			st = append(st, int(in.Out), int(in.Arg))
		case syntax.InstCapture, syntax.InstNop:
			st = append(st, int(in.Out))
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&syntax.EmptyEndText == 0 {
				st = append(st, int(in.Out))
			}
		}
	}
	return true
}

const (
	markOpen  = symMax + 1
	markClose = symMax + 2
)

// interleave allows marks anywhere.
func interleave(d *DFA) *DFA { return interleaveSet(d, RSet{{markOpen, markClose}}) }

func interleaveWith(d *DFA, mark int32) *DFA { return interleaveSet(d, RSet{{mark, mark}}) }

func interleaveSet(d *DFA, s RSet) *DFA {
	edges := make([][]edge, len(d.edges))
	for q := range edges {
		edges[q] = append(append([]edge{}, d.edges[q]...), edge{s, q})
	}
	return internDFA(edges, d.acc)
}

var markTab = map[string]*DFA{}

// markedDFA: words with marks at the borders of group g, over all runs of a
// program anchored on both sides.
func markedDFA(r *Regex, g int) (*DFA, error) {
	key := fmt.Sprintf("%d %s", g, r.src)
	dfaMu.Lock()
	d, ok := markTab[key]
	dfaMu.Unlock()
	if ok {
		return d, nil
	}
	prog := r.prog
	type stt struct {
		pcs   []int
		begin bool
	}
	closure := func(pcs []int, begin, end bool) map[int]bool {
		seen := map[int]bool{}
		st := append([]int{}, pcs...)
		for len(st) > 0 {
			pc := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[pc] {
				continue
			}
			seen[pc] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				st = append(st, int(in.Out), int(in.Arg))
			case syntax.InstCapture:
				if int(in.Arg) != 2*g && int(in.Arg) != 2*g+1 {
					st = append(st, int(in.Out))
				}
			case syntax.InstNop:
				st = append(st, int(in.Out))
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				if (op&syntax.EmptyBeginText == 0 || begin) && (op&syntax.EmptyEndText == 0 || end) {
					st = append(st, int(in.Out))
				}
			}
		}
		return seen
	}
	for _, in := range prog.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			return nil, fmt.Errorf("unsupported assertion")
		}
	}
	kk := func(s stt) string { return fmt.Sprint(s.pcs, s.begin) }
	s0 := stt{[]int{prog.Start}, true}
	idx := map[string]int{kk(s0): 0}
	list := []stt{s0}
	var edges [][]edge
	var acc []bool
	for i := 0; i < len(list); i++ {
		s := list[i]
		endc := closure(s.pcs, s.begin, true)
		isAcc := false
		for pc := range endc {
			if prog.Inst[pc].Op == syntax.InstMatch {
				isAcc = true
			}
		}
		acc = append(acc, isAcc)
		var es []edge
		for pc := range closure(s.pcs, s.begin, false) {
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				es = append(es, edge{instSet(in), int(in.Out)})
			}
		}
		for pc := range endc {
			in := &prog.Inst[pc]
			if in.Op == syntax.InstCapture {
				if int(in.Arg) == 2*g {
					es = append(es, edge{RSet{{markOpen, markOpen}}, int(in.Out)})
				} else if int(in.Arg) == 2*g+1 {
					es = append(es, edge{RSet{{markClose, markClose}}, int(in.Out)})
				}
			}
		}
		var out []edge
		for _, p := range splitEdges(es) {
			b := false
			if p.set[0].lo > symMax {
				b = s.begin
			}
			n := stt{p.tos, b}
			j, ok := idx[kk(n)]
			if !ok {
				j = len(list)
				idx[kk(n)] = j
				list = append(list, n)
			}
			out = append(out, edge{p.set, j})
		}
		edges = append(edges, out)
	}
	d = internDFA(edges, acc)
	dfaMu.Lock()
	markTab[key] = d
	dfaMu.Unlock()
	return d, nil
}

func (d *DFA) shortestRaw() (int, bool) { return d.minL, d.minL >= 0 }

// forceOpq resolves opaque text that stands for a value known elsewhere.
func (x *Ex) forceOpq(st *State, a Atom) (Str, bool) {
	if a.tag != "cap" {
		return Str{}, false
	}
	r := a.args[0].(Rx).r
	s := a.args[1].(Str)
	_, es, caps := x.submatch(st, r, s)
	return x.sub(es, caps[2*a.id], caps[2*a.id+1]), true
}
