package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A string is a sequence of symbols: runes 0..0x10FFFF, and 0x110000+b for a
// byte b that is not part of a valid UTF-8 encoding. The regexp package reads
// such a byte as U+FFFD of width one.

const (
	symBad = 0x110000
	symMax = symBad + 255
)

type rng struct{ lo, hi int32 }

// RSet is a sorted list of disjoint, non-adjacent ranges of symbols.
type RSet []rng

// markSyms has the marks of submatch borders too.
var markSyms = RSet{{0, 0xD7FF}, {0xE000, 0x10FFFF}, {symBad + 0x80, symMax + 2}}

var allSyms = RSet{{0, 0xD7FF}, {0xE000, 0x10FFFF}, {symBad + 0x80, symMax}}
var digitSet = RSet{{'0', '9'}}
var asciiSet = RSet{{0, 127}}

func mkRSet(rs []rng) RSet {
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
	var out RSet
	for _, r := range rs {
		if r.lo > r.hi {
			continue
		}
		if n := len(out); n > 0 && r.lo <= out[n-1].hi+1 {
			if r.hi > out[n-1].hi {
				out[n-1].hi = r.hi
			}
			continue
		}
		out = append(out, r)
	}
	return out
}

func (a RSet) union(b RSet) RSet {
	rs := make([]rng, 0, len(a)+len(b))
	rs = append(rs, a...)
	rs = append(rs, b...)
	return mkRSet(rs)
}

func (a RSet) inter(b RSet) RSet {
	var out RSet
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := a[i].lo, a[i].hi
		if b[j].lo > lo {
			lo = b[j].lo
		}
		if b[j].hi < hi {
			hi = b[j].hi
		}
		if lo <= hi {
			out = append(out, rng{lo, hi})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func (a RSet) minus(b RSet) RSet {
	var out []rng
	for _, r := range a {
		lo := r.lo
		for _, x := range b {
			if x.hi < lo || x.lo > r.hi {
				continue
			}
			if x.lo > lo {
				out = append(out, rng{lo, x.lo - 1})
			}
			lo = x.hi + 1
			if lo > r.hi {
				break
			}
		}
		if lo <= r.hi {
			out = append(out, rng{lo, r.hi})
		}
	}
	return mkRSet(out)
}

func (a RSet) has(s int32) bool {
	for _, r := range a {
		if s >= r.lo && s <= r.hi {
			return true
		}
	}
	return false
}

func (a RSet) empty() bool          { return len(a) == 0 }
func (a RSet) subset(b RSet) bool   { return a.minus(b).empty() }
func (a RSet) disjoint(b RSet) bool { return a.inter(b).empty() }
func (a RSet) single() (int32, bool) {
	if len(a) == 1 && a[0].lo == a[0].hi {
		return a[0].lo, true
	}
	return 0, false
}

func (a RSet) key() string {
	var sb strings.Builder
	for _, r := range a {
		fmt.Fprintf(&sb, "%x-%x,", r.lo, r.hi)
	}
	return sb.String()
}

func (a RSet) String() string {
	var sb strings.Builder
	sb.WriteByte('[')
	for _, r := range a {
		f := func(x int32) string {
			if x >= symBad {
				return fmt.Sprintf("\\x%02x", x-symBad)
			}
			return strings.Trim(fmt.Sprintf("%q", rune(x)), "'")
		}
		if r.lo == r.hi {
			sb.WriteString(f(r.lo))
		} else {
			sb.WriteString(f(r.lo) + "-" + f(r.hi))
		}
	}
	sb.WriteByte(']')
	return sb.String()
}

func symsOf(s string) []int32 {
	var out []int32
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n == 1 {
			out = append(out, symBad+int32(s[0]))
		} else {
			out = append(out, int32(r))
		}
		s = s[n:]
	}
	return out
}

func symString(syms []int32) string {
	var b []byte
	for _, x := range syms {
		if x >= symBad {
			b = append(b, byte(x-symBad))
		} else {
			b = utf8.AppendRune(b, rune(x))
		}
	}
	return string(b)
}

// ---- DFA

type edge struct {
	set RSet
	to  int
}

// DFA is deterministic and trimmed: every state lies on a path from 0 to an
// accepting state (except state 0 of the empty language).
type DFA struct {
	edges [][]edge
	acc   []bool
	id    int
	key   string
	maxL  int // -1: infinite
	minL  int // -1: empty
}

var dfaTab = map[string]*DFA{}
var dfaAll []*DFA
var dfaMu mutexT

func (d *DFA) step(q int, s int32) int {
	for _, e := range d.edges[q] {
		if e.set.has(s) {
			return e.to
		}
	}
	return -1
}

func (d *DFA) accepts(s string) bool {
	q := 0
	for _, x := range symsOf(s) {
		q = d.step(q, x)
		if q < 0 {
			return false
		}
	}
	return d.acc[q]
}

// intern minimizes, canonicalizes and interns a (possibly untrimmed) DFA.
func internDFA(edges [][]edge, acc []bool) *DFA {
	n := len(edges)
	// reachable and productive
	reach := make([]bool, n)
	st := []int{0}
	reach[0] = true
	for len(st) > 0 {
		q := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range edges[q] {
			if !reach[e.to] {
				reach[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	prod := make([]bool, n)
	rev := make([][]int, n)
	for q := range edges {
		for _, e := range edges[q] {
			rev[e.to] = append(rev[e.to], q)
		}
	}
	for q := range acc {
		if acc[q] && !prod[q] {
			prod[q] = true
			st = append(st, q)
		}
	}
	for len(st) > 0 {
		q := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range rev[q] {
			if !prod[p] {
				prod[p] = true
				st = append(st, p)
			}
		}
	}
	// partition refinement by signature
	cls := make([]int, n)
	for q := range cls {
		cls[q] = -1
		if reach[q] && prod[q] {
			cls[q] = 0
			if acc[q] {
				cls[q] = 1
			}
		}
	}
	ncls := 0
	for {
		sig := map[string]int{}
		nc := make([]int, n)
		for q := range cls {
			if cls[q] < 0 {
				nc[q] = -1
				continue
			}
			by := map[int]RSet{}
			for _, e := range edges[q] {
				if cls[e.to] >= 0 {
					by[cls[e.to]] = by[cls[e.to]].union(e.set)
				}
			}
			ks := make([]int, 0, len(by))
			for k := range by {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			var sb strings.Builder
			fmt.Fprintf(&sb, "%d|", cls[q])
			for _, k := range ks {
				fmt.Fprintf(&sb, "%d:%s;", k, by[k].key())
			}
			id, ok := sig[sb.String()]
			if !ok {
				id = len(sig)
				sig[sb.String()] = id
			}
			nc[q] = id
		}
		cls = nc
		if len(sig) == ncls {
			break
		}
		ncls = len(sig)
	}
	if cls[0] < 0 {
		return internCanon([][]edge{nil}, []bool{false})
	}
	// canonical numbering by BFS over sorted edges
	rep := make([]int, ncls)
	for i := range rep {
		rep[i] = -1
	}
	for q := range cls {
		if cls[q] >= 0 && rep[cls[q]] < 0 {
			rep[cls[q]] = q
		}
	}
	num := map[int]int{cls[0]: 0}
	order := []int{cls[0]}
	var ne [][]edge
	var na []bool
	for i := 0; i < len(order); i++ {
		q := rep[order[i]]
		by := map[int]RSet{}
		for _, e := range edges[q] {
			if cls[e.to] >= 0 {
				by[cls[e.to]] = by[cls[e.to]].union(e.set)
			}
		}
		var es []edge
		for k, s := range by {
			es = append(es, edge{s, k})
		}
		sort.Slice(es, func(a, b int) bool { return es[a].set[0].lo < es[b].set[0].lo })
		for j := range es {
			k := es[j].to
			if _, ok := num[k]; !ok {
				num[k] = len(order)
				order = append(order, k)
			}
			es[j].to = num[k]
		}
		ne = append(ne, es)
		na = append(na, acc[q])
	}
	return internCanon(ne, na)
}

func internCanon(edges [][]edge, acc []bool) *DFA {
	var sb strings.Builder
	for q := range edges {
		if acc[q] {
			sb.WriteByte('*')
		}
		for _, e := range edges[q] {
			fmt.Fprintf(&sb, "%s>%d ", e.set.key(), e.to)
		}
		sb.WriteByte(';')
	}
	k := sb.String()
	dfaMu.Lock()
	defer dfaMu.Unlock()
	if d, ok := dfaTab[k]; ok {
		return d
	}
	d := &DFA{edges: edges, acc: acc, key: k, id: len(dfaAll)}
	d.lengths()
	dfaTab[k] = d
	dfaAll = append(dfaAll, d)
	return d
}

func (d *DFA) isEmpty() bool { return d.minL < 0 }

func (d *DFA) lengths() {
	// shortest
	d.minL = -1
	dist := make([]int, len(d.edges))
	for i := range dist {
		dist[i] = -1
	}
	dist[0] = 0
	qs := []int{0}
	for i := 0; i < len(qs); i++ {
		q := qs[i]
		if d.acc[q] && (d.minL < 0 || dist[q] < d.minL) {
			d.minL = dist[q]
		}
		for _, e := range d.edges[q] {
			if dist[e.to] < 0 {
				dist[e.to] = dist[q] + 1
				qs = append(qs, e.to)
			}
		}
	}
	// longest: infinite iff there is a cycle (all states are useful)
	color := make([]int, len(d.edges))
	long := make([]int, len(d.edges))
	cyc := false
	var dfs func(q int)
	dfs = func(q int) {
		color[q] = 1
		best := -1
		if d.acc[q] {
			best = 0
		}
		for _, e := range d.edges[q] {
			if color[e.to] == 1 {
				cyc = true
				continue
			}
			if color[e.to] == 0 {
				dfs(e.to)
			}
			if long[e.to] >= 0 && long[e.to]+1 > best {
				best = long[e.to] + 1
			}
		}
		long[q] = best
		color[q] = 2
	}
	dfs(0)
	d.maxL = long[0]
	if cyc && d.minL >= 0 {
		d.maxL = -1
	}
}

type pairKey struct{ a, b int }

// product combines two languages; f decides acceptance. A missing transition is
// state -1 (rejecting sink).
func product(a, b *DFA, f func(x, y bool) bool) *DFA {
	idx := map[pairKey]int{{0, 0}: 0}
	list := []pairKey{{0, 0}}
	var edges [][]edge
	var acc []bool
	for i := 0; i < len(list); i++ {
		p := list[i]
		var ea, eb []edge
		if p.a >= 0 {
			ea = a.edges[p.a]
		}
		if p.b >= 0 {
			eb = b.edges[p.b]
		}
		xa, xb := p.a >= 0 && a.acc[p.a], p.b >= 0 && b.acc[p.b]
		acc = append(acc, f(xa, xb))
		var es []edge
		add := func(s RSet, k pairKey) {
			if s.empty() || (k.a < 0 && k.b < 0 && !f(false, false)) {
				return
			}
			if k.a < 0 && !f(false, true) && !f(false, false) {
				return
			}
			if k.b < 0 && !f(true, false) && !f(false, false) {
				return
			}
			j, ok := idx[k]
			if !ok {
				j = len(list)
				idx[k] = j
				list = append(list, k)
			}
			es = append(es, edge{s, j})
		}
		restA := markSyms
		for _, x := range ea {
			restA = restA.minus(x.set)
		}
		restB := markSyms
		for _, y := range eb {
			restB = restB.minus(y.set)
		}
		for _, x := range ea {
			for _, y := range eb {
				add(x.set.inter(y.set), pairKey{x.to, y.to})
			}
			add(x.set.inter(restB), pairKey{x.to, -1})
		}
		for _, y := range eb {
			add(y.set.inter(restA), pairKey{-1, y.to})
		}
		add(restA.inter(restB), pairKey{-1, -1})
		edges = append(edges, es)
	}
	return internDFA(edges, acc)
}

type opKey struct {
	op   byte
	a, b int
}

var opCache = map[opKey]*DFA{}

func cachedOp(op byte, a, b *DFA, f func() *DFA) *DFA {
	k := opKey{op, a.id, b.id}
	dfaMu.Lock()
	r, ok := opCache[k]
	dfaMu.Unlock()
	if ok {
		return r
	}
	r = f()
	dfaMu.Lock()
	opCache[k] = r
	dfaMu.Unlock()
	return r
}

func (a *DFA) inter(b *DFA) *DFA {
	return cachedOp('&', a, b, func() *DFA { return product(a, b, func(x, y bool) bool { return x && y }) })
}
func (a *DFA) union(b *DFA) *DFA {
	return cachedOp('|', a, b, func() *DFA { return product(a, b, func(x, y bool) bool { return x || y }) })
}
func (a *DFA) minus(b *DFA) *DFA {
	return cachedOp('-', a, b, func() *DFA { return product(a, b, func(x, y bool) bool { return x && !y }) })
}
func (a *DFA) subset(b *DFA) bool { return a.minus(b).isEmpty() }

var anyDFA = func() *DFA {
	return internDFA([][]edge{{{allSyms, 0}}}, []bool{true})
}()

func litDFA(s string) *DFA {
	syms := symsOf(s)
	edges := make([][]edge, len(syms)+1)
	acc := make([]bool, len(syms)+1)
	for i, x := range syms {
		edges[i] = []edge{{RSet{{x, x}}, i + 1}}
	}
	acc[len(syms)] = true
	return internDFA(edges, acc)
}

// from returns the language read from state q; to the words leading to q.
func (d *DFA) from(q int) *DFA {
	n := len(d.edges)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	perm[0], perm[q] = q, 0
	edges := make([][]edge, n)
	acc := make([]bool, n)
	for i := range edges {
		for _, e := range d.edges[i] {
			edges[perm[i]] = append(edges[perm[i]], edge{e.set, perm[e.to]})
		}
		acc[perm[i]] = d.acc[i]
	}
	return internDFA(edges, acc)
}

func (d *DFA) toStates(qs map[int]bool) *DFA {
	acc := make([]bool, len(d.edges))
	for q := range qs {
		acc[q] = true
	}
	return internDFA(d.edges, acc)
}

// shortest returns a shortest word, preferring printable low symbols.
func (d *DFA) shortest() (string, bool) {
	if d.isEmpty() {
		return "", false
	}
	type st struct {
		q    int
		prev int
		sym  int32
	}
	qs := []st{{0, -1, 0}}
	seen := map[int]bool{0: true}
	for i := 0; i < len(qs); i++ {
		if d.acc[qs[i].q] {
			var syms []int32
			for j := i; qs[j].prev >= 0; j = qs[j].prev {
				syms = append([]int32{qs[j].sym}, syms...)
			}
			return symString(syms), true
		}
		for _, e := range d.edges[qs[i].q] {
			if !seen[e.to] {
				seen[e.to] = true
				s := e.set[0].lo
				if x := e.set.inter(RSet{{33, 126}}); !x.empty() {
					s = x[0].lo
				}
				qs = append(qs, st{e.to, i, s})
			}
		}
	}
	return "", false
}

// single returns the only word of the language, if there is exactly one.
func (d *DFA) single() (string, bool) {
	if d.isEmpty() || d.maxL < 0 || d.minL != d.maxL {
		return "", false
	}
	var syms []int32
	q := 0
	for {
		if len(d.edges[q]) == 0 {
			return symString(syms), true
		}
		if len(d.edges[q]) > 1 || d.acc[q] {
			return "", false
		}
		s, ok := d.edges[q][0].set.single()
		if !ok {
			return "", false
		}
		syms = append(syms, s)
		q = d.edges[q][0].to
	}
}

// ---- concatenation, via NFA determinization

type nfa struct {
	eps   [][]int
	edges [][]edge
	acc   []bool
}

func (n *nfa) add() int {
	n.eps = append(n.eps, nil)
	n.edges = append(n.edges, nil)
	n.acc = append(n.acc, false)
	return len(n.eps) - 1
}

func (n *nfa) closure(qs []int) []int {
	seen := map[int]bool{}
	st := append([]int{}, qs...)
	for _, q := range qs {
		seen[q] = true
	}
	for len(st) > 0 {
		q := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range n.eps[q] {
			if !seen[e] {
				seen[e] = true
				st = append(st, e)
			}
		}
	}
	out := make([]int, 0, len(seen))
	for q := range seen {
		out = append(out, q)
	}
	sort.Ints(out)
	return out
}

func (n *nfa) determinize(start int) *DFA {
	key := func(qs []int) string { return fmt.Sprint(qs) }
	s0 := n.closure([]int{start})
	idx := map[string]int{key(s0): 0}
	list := [][]int{s0}
	var edges [][]edge
	var acc []bool
	for i := 0; i < len(list); i++ {
		var es []edge
		a := false
		for _, q := range list[i] {
			if n.acc[q] {
				a = true
			}
			es = append(es, n.edges[q]...)
		}
		acc = append(acc, a)
		var out []edge
		for _, p := range splitEdges(es) {
			c := n.closure(p.tos)
			k := key(c)
			j, ok := idx[k]
			if !ok {
				j = len(list)
				idx[k] = j
				list = append(list, c)
			}
			out = append(out, edge{p.set, j})
		}
		edges = append(edges, out)
	}
	return internDFA(edges, acc)
}

type part struct {
	set RSet
	tos []int
}

// splitEdges partitions the symbols by the set of targets.
func splitEdges(es []edge) []part {
	cutm := map[int32]bool{}
	for _, e := range es {
		for _, r := range e.set {
			cutm[r.lo] = true
			cutm[r.hi+1] = true
		}
	}
	cuts := make([]int32, 0, len(cutm))
	for c := range cutm {
		cuts = append(cuts, c)
	}
	sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
	byKey := map[string]int{}
	var out []part
	for i := 0; i+1 < len(cuts); i++ {
		lo, hi := cuts[i], cuts[i+1]-1
		tm := map[int]bool{}
		for _, e := range es {
			if e.set.has(lo) {
				tm[e.to] = true
			}
		}
		if len(tm) == 0 {
			continue
		}
		tos := make([]int, 0, len(tm))
		for t := range tm {
			tos = append(tos, t)
		}
		sort.Ints(tos)
		k := fmt.Sprint(tos)
		if j, ok := byKey[k]; ok {
			out[j].set = out[j].set.union(RSet{{lo, hi}})
			continue
		}
		byKey[k] = len(out)
		out = append(out, part{RSet{{lo, hi}}, tos})
	}
	return out
}

func (a *DFA) concat(b *DFA) *DFA {
	return cachedOp('.', a, b, func() *DFA {
		n := &nfa{}
		for range a.edges {
			n.add()
		}
		off := len(a.edges)
		for range b.edges {
			n.add()
		}
		for q := range a.edges {
			n.edges[q] = a.edges[q]
			if a.acc[q] {
				n.eps[q] = append(n.eps[q], off)
			}
		}
		for q := range b.edges {
			for _, e := range b.edges[q] {
				n.edges[off+q] = append(n.edges[off+q], edge{e.set, e.to + off})
			}
			n.acc[off+q] = b.acc[q]
		}
		return n.determinize(0)
	})
}

func (a *DFA) star() *DFA {
	n := &nfa{}
	s := n.add()
	for range a.edges {
		n.add()
	}
	n.acc[s] = true
	n.eps[s] = []int{1}
	for q := range a.edges {
		for _, e := range a.edges[q] {
			n.edges[q+1] = append(n.edges[q+1], edge{e.set, e.to + 1})
		}
		if a.acc[q] {
			n.eps[q+1] = append(n.eps[q+1], s)
		}
	}
	return n.determinize(s)
}

func setDFA(s RSet) *DFA {
	return internDFA([][]edge{{{s, 1}}, nil}, []bool{false, true})
}

func classStar(s RSet) *DFA {
	return internDFA([][]edge{{{s, 0}}}, []bool{true})
}

// ---- regular expressions

type Regex struct {
	src   string
	prog  *syntax.Prog
	ncap  int
	names []string
	full  *DFA // strings in which the (unanchored) regexp matches somewhere
}

var regexTab = map[string]*Regex{}

func compileRegex(src string) (*Regex, error) {
	dfaMu.Lock()
	if r, ok := regexTab[src]; ok {
		dfaMu.Unlock()
		return r, nil
	}
	dfaMu.Unlock()
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	ncap := re.MaxCap()
	names := re.CapNames()
	re = re.Simplify()
	prog, err := syntax.Compile(re)
	if err != nil {
		return nil, err
	}
	r := &Regex{src: src, prog: prog, ncap: ncap, names: names}
	r.full, err = progDFA(prog)
	if err != nil {
		return nil, err
	}
	dfaMu.Lock()
	regexTab[src] = r
	dfaMu.Unlock()
	return r, nil
}

func instSet(i *syntax.Inst) RSet {
	var rs []rng
	switch i.Op {
	case syntax.InstRuneAny:
		return allSyms
	case syntax.InstRuneAnyNotNL:
		return allSyms.minus(RSet{{'\n', '\n'}})
	case syntax.InstRune, syntax.InstRune1:
		if len(i.Rune) == 1 {
			r0 := i.Rune[0]
			rs = append(rs, rng{int32(r0), int32(r0)})
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
				for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
					rs = append(rs, rng{int32(r1), int32(r1)})
				}
			}
		} else {
			for j := 0; j+1 < len(i.Rune); j += 2 {
				rs = append(rs, rng{int32(i.Rune[j]), int32(i.Rune[j+1])})
			}
		}
	}
	s := mkRSet(rs)
	if s.has(utf8.RuneError) {
		s = s.union(RSet{{symBad + 0x80, symMax}})
	}
	return s.inter(allSyms)
}

// progDFA builds the DFA of "the program matches somewhere in the string" by
// tracking sets of program counters together with the kind of the previous
// symbol (beginning of text, newline, word character, other).
func progDFA(prog *syntax.Prog) (*DFA, error) {
	const (
		pBegin = iota
		pNL
		pWord
		pOther
	)
	wordSet := RSet{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}
	nlSet := RSet{{'\n', '\n'}}
	// next kinds: symbol class of next, or end
	kinds := []struct {
		set RSet
		k   int
	}{{nlSet, pNL}, {wordSet, pWord}, {allSyms.minus(nlSet).minus(wordSet), pOther}}
	const nEnd = -1

	emptyOK := func(op syntax.EmptyOp, prev, next int) bool {
		var f syntax.EmptyOp
		if prev == pBegin {
			f |= syntax.EmptyBeginText | syntax.EmptyBeginLine
		}
		if prev == pNL {
			f |= syntax.EmptyBeginLine
		}
		if next == nEnd {
			f |= syntax.EmptyEndText | syntax.EmptyEndLine
		}
		if next == pNL {
			f |= syntax.EmptyEndLine
		}
		w1, w2 := prev == pWord, next == pWord
		if w1 != w2 {
			f |= syntax.EmptyWordBoundary
		} else {
			f |= syntax.EmptyNoWordBoundary
		}
		return op&^f == 0
	}
	// closure of pcs given prev and next kinds
	closure := func(pcs []int, prev, next int) (map[int]bool, bool) {
		seen := map[int]bool{}
		st := append([]int{}, pcs...)
		match := false
		for len(st) > 0 {
			pc := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[pc] {
				continue
			}
			seen[pc] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				st = append(st, int(in.Out), int(in.Arg))
			case syntax.InstCapture, syntax.InstNop:
				st = append(st, int(in.Out))
			case syntax.InstEmptyWidth:
				if emptyOK(syntax.EmptyOp(in.Arg), prev, next) {
					st = append(st, int(in.Out))
				}
			case syntax.InstMatch:
				match = true
			}
		}
		return seen, match
	}
	// DFA state: sorted pcs (pending, before closure), prev kind, matched flag
	type stt struct {
		pcs     []int
		prev    int
		matched bool
	}
	key := func(s stt) string { return fmt.Sprint(s.pcs, s.prev, s.matched) }
	s0 := stt{[]int{prog.Start}, pBegin, false}
	idx := map[string]int{key(s0): 0}
	list := []stt{s0}
	var edges [][]edge
	var acc []bool
	for i := 0; i < len(list); i++ {
		if len(list) > 20000 {
			return nil, fmt.Errorf("regular expression is too large")
		}
		s := list[i]
		if s.matched {
			edges = append(edges, []edge{{allSyms, i}})
			acc = append(acc, true)
			continue
		}
		_, m := closure(s.pcs, s.prev, nEnd)
		acc = append(acc, m)
		var out []edge
		for _, kd := range kinds {
			seen, m := closure(s.pcs, s.prev, kd.k)
			if m {
				// matched before this symbol: whatever follows is accepted
				n := stt{nil, 0, true}
				j, ok := idx[key(n)]
				if !ok {
					j = len(list)
					idx[key(n)] = j
					list = append(list, n)
				}
				out = append(out, edge{kd.set, j})
				continue
			}
			var es []edge
			for pc := range seen {
				in := &prog.Inst[pc]
				switch in.Op {
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					if x := instSet(in).inter(kd.set); !x.empty() {
						es = append(es, edge{x, int(in.Out)})
					}
				}
			}
			// unanchored: a match may start at every position
			es = append(es, edge{kd.set, prog.Start})
			for _, p := range splitEdges(es) {
				n := stt{p.tos, kd.k, false}
				j, ok := idx[key(n)]
				if !ok {
					j = len(list)
					idx[key(n)] = j
					list = append(list, n)
				}
				out = append(out, edge{p.set, j})
			}
		}
		edges = append(edges, out)
	}
	return internDFA(edges, acc), nil
}

// words enumerates up to max words of a finite language with small classes.
func (d *DFA) words(max int) ([]string, bool) {
	if d.maxL < 0 {
		return nil, false
	}
	var out []string
	ok := true
	var rec func(q int, cur []int32)
	rec = func(q int, cur []int32) {
		if !ok {
			return
		}
		if d.acc[q] {
			out = append(out, symString(cur))
			if len(out) > max {
				ok = false
				return
			}
		}
		for _, e := range d.edges[q] {
			for _, r := range e.set {
				for x := r.lo; x <= r.hi; x++ {
					rec(e.to, append(cur, x))
					if !ok {
						return
					}
				}
			}
		}
	}
	rec(0, nil)
	return out, ok
}
