package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"unicode"
)

// ---- characters

// charStr is the string consisting of one symbol.
func (x *Ex) charStr(t *Term) Str {
	if v, ok := t.int64(); ok {
		return lit(symString([]int32{int32(v)}))
	}
	return Str{[]Atom{{kind: AChar, t: t}}}
}

// newChar is a symbol variable ranging over a set.
func (x *Ex) newChar(name string, set RSet) *Term {
	if s, ok := set.single(); ok {
		return x.c.Int(int64(s))
	}
	t := x.c.Var(name, SInt, ival{lo: int64(set[0].lo), hi: int64(set[len(set)-1].hi)})
	if _, ok := x.csets[t.id]; !ok {
		x.csets[t.id] = set
	}
	return t
}

// crange is a superset of the symbols a term can denote.
func (x *Ex) crange(t *Term) RSet {
	if v, ok := t.int64(); ok {
		return RSet{{int32(v), int32(v)}}
	}
	if s, ok := x.csets[t.id]; ok {
		return s
	}
	var r RSet
	switch t.op {
	case OIte:
		r = x.crange(t.args[1]).union(x.crange(t.args[2]))
	default:
		iv := t.iv
		lo, hi := int64(0), int64(symMax)
		if !iv.loInf && iv.lo > lo {
			lo = iv.lo
		}
		if !iv.hiInf && iv.hi < hi {
			hi = iv.hi
		}
		if lo > hi {
			return nil
		}
		r = RSet{{int32(lo), int32(hi)}}.inter(allSyms)
	}
	x.csets[t.id] = r
	return r
}

// inSet is the condition that a symbol is in a set.
func (x *Ex) inSet(t *Term, set RSet) *Term {
	r := x.crange(t)
	in := r.inter(set)
	if in.empty() {
		return x.c.F
	}
	out := r.minus(set)
	if out.empty() {
		return x.c.T
	}
	if t.op == OIte {
		return x.c.Ite(t.args[0], x.inSet(t.args[1], set), x.inSet(t.args[2], set))
	}
	rangeCond := func(in, r RSet) *Term {
		// join ranges of in between which r has nothing
		var js []rng
		for _, g := range in {
			if n := len(js); n > 0 && r.inter(RSet{{js[n-1].hi + 1, g.lo - 1}}).empty() {
				js[n-1].hi = g.hi
				continue
			}
			js = append(js, g)
		}
		var ors []*Term
		for _, g := range js {
			if g.lo == g.hi {
				ors = append(ors, x.c.Eq(t, x.c.Int(int64(g.lo))))
				continue
			}
			var as []*Term
			if r[0].lo < g.lo {
				as = append(as, x.c.Ge(t, x.c.Int(int64(g.lo))))
			}
			if r[len(r)-1].hi > g.hi {
				as = append(as, x.c.Le(t, x.c.Int(int64(g.hi))))
			}
			ors = append(ors, x.c.And(as...))
		}
		return x.c.Or(ors...)
	}
	if len(out) < len(in) {
		return x.c.Not(rangeCond(out, r))
	}
	return rangeCond(in, r)
}

func (x *Ex) needASCII(st *State, t *Term) {
	if x.crange(t).subset(asciiSet) {
		return
	}
	if !x.decide(st, x.c.Lt(t, x.c.Int(128))) {
		unsup("non-ASCII character where its bytes matter")
	}
}

func (x *Ex) symWidth(st *State, t *Term) int {
	if x.crange(t).subset(asciiSet) {
		return 1
	}
	if x.decide(st, x.c.Lt(t, x.c.Int(128))) {
		return 1
	}
	if x.decide(st, x.c.Ge(t, x.c.Int(symBad))) {
		return 1
	}
	if x.decide(st, x.c.Lt(t, x.c.Int(0x800))) {
		return 2
	}
	if x.decide(st, x.c.Lt(t, x.c.Int(0x10000))) {
		return 3
	}
	return 4
}

// ---- language atoms

// langStr makes a string variable over a language.
func (x *Ex) langStr(st *State, d *DFA) Str {
	if d.isEmpty() {
		panic(infeasible{})
	}
	if w, ok := d.single(); ok {
		return lit(w)
	}
	id := x.newID()
	st.setLang(id, d)
	return Str{[]Atom{{kind: ALang, id: id}}}
}

// setLangOf narrows a language atom.
func (x *Ex) setLangOf(st *State, id int, d *DFA) {
	if d.isEmpty() {
		panic(infeasible{})
	}
	st.setLang(id, d)
	if w, ok := d.single(); ok {
		st.setSubst(id, lit(w))
	}
}

func (x *Ex) lang(st *State, id int) *DFA {
	d, ok := st.langs[id]
	if !ok {
		unsup("unknown language atom %d", id)
	}
	return d
}

// pickLang chooses one of several disjoint languages for an atom.
func (x *Ex) pickLang(st *State, id int, ds ...*DFA) int {
	var idx []int
	for i, d := range ds {
		if !d.isEmpty() {
			idx = append(idx, i)
		}
	}
	i := idx[x.choose(st, len(idx))]
	x.setLangOf(st, id, ds[i])
	return i
}

var lenDFAs = map[int]*DFA{}

func lengthDFA(n int) *DFA {
	dfaMu.Lock()
	d, ok := lenDFAs[n]
	dfaMu.Unlock()
	if ok {
		return d
	}
	edges := make([][]edge, n+1)
	acc := make([]bool, n+1)
	for i := 0; i < n; i++ {
		edges[i] = []edge{{allSyms, i + 1}}
	}
	acc[n] = true
	d = internDFA(edges, acc)
	dfaMu.Lock()
	lenDFAs[n] = d
	dfaMu.Unlock()
	return d
}

// expand replaces a language atom by characters and segments.
func (x *Ex) expand(st *State, id int) {
	if _, ok := st.subst[id]; ok {
		return
	}
	d := x.lang(st, id)
	if d.maxL >= 0 {
		if d.maxL > 64 {
			unsup("string of up to %d symbols", d.maxL)
		}
		ls := d.forms()
		i := x.choose(st, len(ls))
		d = ls[i]
		st.setLang(id, d)
		x.expandFixed(st, id, d)
		return
	}
	x.expandInf(st, id, d)
}

var alnumSet = RSet{{'0', '9'}, {'A', 'Z'}, {'a', 'z'}}

// forms splits a finite language by length and by the places of punctuation.
func (d *DFA) forms() []*DFA {
	dfaMu.Lock()
	fs, ok := formTab[d.id]
	dfaMu.Unlock()
	if ok {
		return fs
	}
	for n := d.minL; n <= d.maxL; n++ {
		e := d.inter(lengthDFA(n))
		if e.isEmpty() {
			continue
		}
		all := []*DFA{e}
		for i := 0; i < n; i++ {
			var next []*DFA
			for _, f := range all {
				next = append(next, f.splitAt(i)...)
			}
			all = next
			if len(all) > 200 {
				break
			}
		}
		if len(all) > 200 {
			all = []*DFA{e}
		}
		fs = append(fs, all...)
	}
	dfaMu.Lock()
	formTab[d.id] = fs
	dfaMu.Unlock()
	return fs
}

var formTab = map[int][]*DFA{}

// splitAt splits a language of fixed length by the kind of symbol at position i:
// letters and digits stay together, other symbols are kept apart when the
// language treats them differently.
func (d *DFA) splitAt(i int) []*DFA {
	layer := map[int]bool{0: true}
	for k := 0; k < i; k++ {
		n := map[int]bool{}
		for q := range layer {
			for _, e := range d.edges[q] {
				n[e.to] = true
			}
		}
		layer = n
	}
	qs := make([]int, 0, len(layer))
	for q := range layer {
		qs = append(qs, q)
	}
	sort.Ints(qs)
	// atoms of the partition of the symbols
	var set RSet
	parts := []RSet{}
	beh := func(s int32) string {
		k := ""
		for _, q := range qs {
			k += fmt.Sprintf("%d,", d.step(q, s))
		}
		return k
	}
	for _, q := range qs {
		for _, e := range d.edges[q] {
			set = set.union(e.set)
		}
	}
	parts = []RSet{set.inter(alnumSet), set.minus(alnumSet)}
	for _, q := range qs {
		for _, e := range d.edges[q] {
			var next []RSet
			for _, p := range parts {
				if y := p.inter(e.set); !y.empty() {
					next = append(next, y)
				}
				if y := p.minus(e.set); !y.empty() {
					next = append(next, y)
				}
			}
			parts = next
		}
	}
	alnum := set.inter(alnumSet)
	akeys := map[string]bool{}
	groups := map[string]RSet{}
	var order []string
	for _, p := range parts {
		if p.empty() {
			continue
		}
		if p.subset(alnumSet) {
			akeys[beh(p[0].lo)] = true
		}
	}
	for _, p := range parts {
		if p.empty() || p.subset(alnumSet) {
			continue
		}
		k := beh(p[0].lo)
		if akeys[k] {
			alnum = alnum.union(p)
			continue
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = groups[k].union(p)
	}
	var out []*DFA
	pick := func(s RSet) {
		if s.empty() {
			return
		}
		l := litDFA("")
		for k := 0; k < i; k++ {
			l = l.concat(setDFA(allSyms))
		}
		l = l.concat(setDFA(s)).concat(classStar(allSyms))
		if e := d.inter(l); !e.isEmpty() {
			out = append(out, e)
		}
	}
	pick(alnum)
	for _, k := range order {
		pick(groups[k])
	}
	return out
}

// expandFixed: all words have the same length.
func (x *Ex) expandFixed(st *State, id int, d *DFA) {
	n := d.minL
	chars, cond := x.fixedVec(id, d)
	var parts []Str
	for _, c := range chars {
		parts = append(parts, x.charStr(c))
	}
	_ = n
	st.setSubst(id, concatStr(parts...))
	x.define(st, cond)
}

// fixedVec names the characters of a word of a language of fixed length.
func (x *Ex) fixedVec(id int, d *DFA) ([]*Term, *Term) {
	n := d.minL
	// symbols possible at each position
	layers := make([]map[int]bool, n+1)
	layers[0] = map[int]bool{0: true}
	sets := make([]RSet, n)
	for i := 0; i < n; i++ {
		layers[i+1] = map[int]bool{}
		for q := range layers[i] {
			for _, e := range d.edges[q] {
				sets[i] = sets[i].union(e.set)
				layers[i+1][e.to] = true
			}
		}
	}
	chars := make([]*Term, n)
	for i := range chars {
		chars[i] = x.newChar(fmt.Sprintf("s%d_%d_%d", id, d.id, i), sets[i])
	}
	fs := map[int]*Term{0: x.c.T}
	for i := 0; i < n; i++ {
		fs = x.stepStates(d, fs, chars[i])
	}
	var ors []*Term
	for q, f := range fs {
		if d.acc[q] {
			ors = append(ors, f)
		}
	}
	return chars, x.c.Or(ors...)
}

// stepStates advances a map from states to conditions over one symbol.
func (x *Ex) stepStates(d *DFA, fs map[int]*Term, ch *Term) map[int]*Term {
	out := map[int][]*Term{}
	for q, f := range fs {
		for _, e := range d.edges[q] {
			c := x.c.And(f, x.inSet(ch, e.set))
			if !c.isFalse() {
				out[e.to] = append(out[e.to], c)
			}
		}
	}
	r := map[int]*Term{}
	for q, cs := range out {
		// all conditions covering everything collapse to true
		o := x.c.Or(cs...)
		if !o.isFalse() {
			r[q] = o
		}
	}
	if len(r) == 1 && len(fs) >= 1 {
		// if every symbol in range leads to this one state from every source state the
		// condition is just the disjunction of the sources
		for q := range r {
			all := true
			rg := x.crange(ch)
			var srcs []*Term
			for p, f := range fs {
				var s RSet
				for _, e := range d.edges[p] {
					if e.to == q {
						s = s.union(e.set)
					}
				}
				if !rg.subset(s) {
					all = false
				}
				srcs = append(srcs, f)
			}
			if all {
				r[q] = x.c.Or(srcs...)
			}
		}
	}
	return r
}

type seg struct {
	set  RSet
	loop bool // zero or more symbols
}

// expandInf: the cycles of the language are self-loops; one path is chosen.
func (x *Ex) expandInf(st *State, id int, d *DFA) {
	var paths [][]seg
	var rec func(q int, cur []seg, on map[int]bool)
	rec = func(q int, cur []seg, on map[int]bool) {
		if len(paths) > 3000 {
			unsup("too many forms of an unbounded string")
		}
		var loop RSet
		for _, e := range d.edges[q] {
			if e.to == q {
				loop = loop.union(e.set)
			}
		}
		if !loop.empty() {
			cur = append(cur[:len(cur):len(cur)], seg{loop, true})
		}
		if d.acc[q] {
			paths = append(paths, cur)
		}
		tos := map[int]RSet{}
		var order []int
		for _, e := range d.edges[q] {
			if e.to == q {
				continue
			}
			if on[e.to] {
				unsup("unbounded repetition of a group in a string")
			}
			if _, ok := tos[e.to]; !ok {
				order = append(order, e.to)
			}
			tos[e.to] = tos[e.to].union(e.set)
		}
		for _, t := range order {
			on[t] = true
			rec(t, append(cur[:len(cur):len(cur)], seg{tos[t], false}), on)
			delete(on, t)
		}
	}
	rec(0, nil, map[int]bool{0: true})
	// join paths that differ in the set of a single position only
	for changed := true; changed; {
		changed = false
	outer:
		for i := range paths {
			for j := i + 1; j < len(paths); j++ {
				if len(paths[i]) != len(paths[j]) {
					continue
				}
				diff, at := 0, -1
				for k := range paths[i] {
					a, b := paths[i][k], paths[j][k]
					if a.loop != b.loop {
						diff = 2
						break
					}
					if a.set.key() != b.set.key() {
						diff++
						at = k
						if a.loop {
							diff = 2
						}
					}
				}
				if diff == 1 {
					n := append([]seg{}, paths[i]...)
					n[at].set = n[at].set.union(paths[j][at].set)
					paths[i] = n
					paths = append(paths[:j], paths[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	k := x.choose(st, len(paths))
	var parts []Str
	for i, s := range paths[k] {
		if s.loop {
			parts = append(parts, x.newSeg(st, fmt.Sprintf("g%d_%d_%d_%d", id, d.id, k, i), s.set, false))
		} else {
			parts = append(parts, x.charStr(x.newChar(fmt.Sprintf("p%d_%d_%d_%d", id, d.id, k, i), s.set)))
		}
	}
	st.setSubst(id, concatStr(parts...))
}

func (x *Ex) newSeg(st *State, name string, set RSet, nonEmpty bool) Str {
	n, ok := x.segIDs[name]
	if !ok {
		n = x.newID()
		x.segIDs[name] = n
	}
	lo := int64(0)
	if nonEmpty {
		lo = 1
	}
	l := x.c.Var(name+"#", SInt, ival{lo: lo, hi: 1 << 40})
	return Str{[]Atom{{kind: ASeg, id: n, set: set, t: l}}}
}

// splitSeg: a nonempty segment is a character followed by a segment.
func (x *Ex) splitSeg(st *State, a Atom, back bool) {
	if back {
		// representation is anchored at the front: take the last symbol
		nm := fmt.Sprintf("sb%d", a.id)
		rest := x.newSeg(st, nm, a.set, false)
		ch := x.charStr(x.newChar(nm+"c", a.set))
		x.define(st, x.c.Eq(a.t, x.c.Add(rest.a[0].t, x.c.Int(1))))
		st.setSubst(a.id, concatStr(rest, ch))
		return
	}
	nm := fmt.Sprintf("sf%d", a.id)
	rest := x.newSeg(st, nm, a.set, false)
	ch := x.charStr(x.newChar(nm+"c", a.set))
	x.define(st, x.c.Eq(a.t, x.c.Add(rest.a[0].t, x.c.Int(1))))
	st.setSubst(a.id, concatStr(ch, rest))
}

// ---- decimal formatting atoms

func fmtInt(n *Term, width int, tag string) Str {
	if n.isConst() {
		if width > 0 {
			return lit(fmt.Sprintf("%0*s", 0, zpad(n.c, width)))
		}
		return lit(n.c.String())
	}
	return Str{[]Atom{{kind: AFmt, t: n, width: width, tag: tag}}}
}

func zpad(n *big.Int, width int) string {
	s := new(big.Int).Abs(n).String()
	neg := n.Sign() < 0
	w := width
	if neg {
		w--
	}
	for len(s) < w {
		s = "0" + s
	}
	if neg {
		s = "-" + s
	}
	return s
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// expandFmt writes a decimal number out as characters. For "%0wd" the width
// covers the sign, as fmt does.
func (x *Ex) expandFmt(st *State, a Atom) Str {
	c := x.c
	n := a.t
	neg := x.decide(st, c.Lt(n, c.Int(0)))
	w := a.width
	abs := n
	if neg {
		abs = c.Neg(n)
		w--
	}
	if w < 1 {
		w = 1
	}
	for !x.decide(st, c.Lt(abs, c.Big(pow10(w)))) {
		w++
		if w > 20 {
			unsup("number with too many digits")
		}
	}
	// no padding: exactly as many digits as needed
	min := a.width
	if neg {
		min--
	}
	if min < 1 {
		min = 1
	}
	digs := x.digits(st, abs, w)
	var parts []Str
	if neg {
		parts = append(parts, lit("-"))
	}
	for _, d := range digs {
		parts = append(parts, x.charStr(c.Add(d, c.Int('0'))))
	}
	return concatStr(parts...)
}

// digits: the w decimal digits of 0 <= n < 10^w, most significant first.
func (x *Ex) digits(st *State, n *Term, w int) []*Term {
	c := x.c
	out := make([]*Term, w)
	if n.isConst() {
		s := zpad(n.c, w)
		for i := range out {
			out[i] = c.Int(int64(s[i] - '0'))
		}
		return out
	}
	// a positional combination of digits: take them back
	k, ls := c.linOf(n)
	ok := true
	sum := new(big.Int).Set(k)
	byPow := make([]*Term, w)
	for _, l := range ls {
		p := -1
		for i := 0; i < w; i++ {
			if l.c.Cmp(pow10(i)) == 0 {
				p = i
			}
		}
		iv := l.t.iv
		if p < 0 || iv.loInf || iv.hiInf || iv.hi-iv.lo > 9 || byPow[p] != nil {
			ok = false
			break
		}
		byPow[p] = l.t
		if iv.lo >= '0' && iv.hi <= '9' {
			sum.Add(sum, new(big.Int).Mul(big.NewInt('0'), l.c))
			byPow[p] = c.Sub(l.t, c.Int('0'))
		} else if !(iv.lo >= 0 && iv.hi <= 9) {
			ok = false
			break
		}
	}
	if ok && sum.Sign() >= 0 {
		s := zpad(sum, w)
		for i := 0; i < w && ok; i++ {
			v := int64(s[i] - '0')
			t := byPow[w-1-i]
			if t == nil {
				out[i] = c.Int(v)
			} else if v == 0 {
				out[i] = t
			} else {
				ok = false
			}
		}
		if ok {
			return out
		}
	}
	eq := c.Int(0)
	for i := range out {
		out[i] = c.Var(fmt.Sprintf("d%d_%d_%d", n.id, w, i), SInt, ival{lo: 0, hi: 9})
		eq = c.Add(eq, c.Scale(out[i], pow10(w-1-i)))
	}
	if g := c.groups[out[w-1].id]; g != nil {
		x.define(st, g.def)
		return out
	}
	def := c.Eq(eq, n)
	x.define(st, def)
	if w > 1 {
		if c.groups == nil {
			c.groups = map[int]*digitGroup{}
		}
		c.groups[out[w-1].id] = &digitGroup{n, append([]*Term{}, out...), def}
	}
	return out
}

// ---- structure

// flat resolves a string into literals, characters and segments.
func (x *Ex) flat(st *State, s Str) Str {
	for {
		s = st.norm(s)
		done := true
		for i, a := range s.a {
			switch a.kind {
			case ALang:
				x.expand(st, a.id)
				done = false
			case AFmt:
				e := x.expandFmt(st, a)
				s = concatStr(Str{s.a[:i:i]}, e, Str{s.a[i+1:]})
				done = false
			case AOpq:
				if v, ok := x.forceOpq(st, a); ok {
					s = concatStr(Str{s.a[:i:i]}, v, Str{s.a[i+1:]})
					done = false
				} else {
					unsup("contents of opaque text %s", a.key())
				}
			}
			if !done {
				break
			}
		}
		if done {
			return s
		}
	}
}

// chars resolves a string into single symbols, fixing every length.
func (x *Ex) chars(st *State, s Str) []*Term {
	for n := 0; ; n++ {
		s = x.flat(st, s)
		again := false
		for _, a := range s.a {
			if a.kind == ASeg {
				if x.decide(st, x.c.Eq(a.t, x.c.Int(0))) {
					st.setSubst(a.id, Str{})
				} else {
					if n > 70 {
						unsup("unbounded string is taken apart symbol by symbol")
					}
					x.splitSeg(st, a, false)
				}
				again = true
				break
			}
		}
		if !again {
			cs, _ := fixedChars(x.c, s)
			return cs
		}
	}
}

// head exposes the first symbol of a string: nil when it is empty.
func (x *Ex) splitFirst(st *State, s Str) (*Term, Str, bool) {
	for {
		s = st.norm(s)
		if len(s.a) == 0 {
			return nil, s, false
		}
		a := s.a[0]
		rest := Str{s.a[1:]}
		switch a.kind {
		case ALit:
			syms := symsOf(a.lit)
			return x.c.Int(int64(syms[0])), concatStr(lit(symString(syms[1:])), rest), true
		case AChar:
			return a.t, rest, true
		case ASeg:
			if x.decide(st, x.c.Eq(a.t, x.c.Int(0))) {
				st.setSubst(a.id, Str{})
			} else {
				x.splitSeg(st, a, false)
			}
		case ALang:
			d := x.lang(st, a.id)
			if d.maxL < 0 && d.acc[0] && len(d.edges[0]) == 1 && d.edges[0][0].to == 0 {
				x.expand(st, a.id)
			} else {
				x.expand(st, a.id)
			}
		case AFmt:
			s = concatStr(x.expandFmt(st, a), rest)
		case AOpq:
			v, ok := x.forceOpq(st, a)
			if !ok {
				unsup("contents of opaque text %s", a.key())
			}
			s = concatStr(v, rest)
		}
	}
}

func (x *Ex) splitLast(st *State, s Str) (*Term, Str, bool) {
	for {
		s = st.norm(s)
		n := len(s.a)
		if n == 0 {
			return nil, s, false
		}
		a := s.a[n-1]
		rest := Str{s.a[: n-1 : n-1]}
		switch a.kind {
		case ALit:
			syms := symsOf(a.lit)
			return x.c.Int(int64(syms[len(syms)-1])), concatStr(rest, lit(symString(syms[:len(syms)-1]))), true
		case AChar:
			return a.t, rest, true
		case ASeg:
			if x.decide(st, x.c.Eq(a.t, x.c.Int(0))) {
				st.setSubst(a.id, Str{})
			} else {
				x.splitSeg(st, a, true)
			}
		case ALang:
			x.expand(st, a.id)
		case AFmt:
			s = concatStr(rest, x.expandFmt(st, a))
		case AOpq:
			v, ok := x.forceOpq(st, a)
			if !ok {
				unsup("contents of opaque text %s", a.key())
			}
			s = concatStr(rest, v)
		}
	}
}

// strLen is the length in bytes.
func (x *Ex) strLen(st *State, s Str) *Term {
	for {
		s = st.norm(s)
		n := x.c.Int(0)
		again := false
		for _, a := range s.a {
			switch a.kind {
			case ALit:
				n = x.c.Add(n, x.c.Int(int64(len(a.lit))))
			case AChar:
				n = x.c.Add(n, x.c.Int(int64(x.symWidth(st, a.t))))
			case ASeg:
				if !a.set.subset(asciiSet) {
					unsup("byte length of a non-ASCII segment")
				}
				n = x.c.Add(n, a.t)
			case ALang:
				d := x.lang(st, a.id)
				if d.alphabet().subset(asciiSet) && d.minL == d.maxL {
					n = x.c.Add(n, x.c.Int(int64(d.minL)))
					continue
				}
				if d.maxL >= 0 && x.vc != nil && x.vc.c.abstracts("len") {
					// left open: more executions than there are
					n = x.c.Add(n, x.c.Var(fmt.Sprintf("len!L%d", a.id), SInt, ival{lo: int64(d.minL), hi: 4 * int64(d.maxL)}))
					continue
				}
				if d.alphabet().subset(asciiSet) && d.maxL >= 0 {
					var ls []*DFA
					for k := d.minL; k <= d.maxL; k++ {
						if e := d.inter(lengthDFA(k)); !e.isEmpty() {
							ls = append(ls, e)
						}
					}
					x.pickLang(st, a.id, ls...)
					again = true
				} else if !d.alphabet().subset(asciiSet) && d.alphabet().subset(allSyms) {
					n = x.c.Add(n, x.lenVar(st, a.id, d))
				} else {
					x.expand(st, a.id)
					again = true
				}
			case AFmt:
				iv := a.t.iv
				if a.width > 0 && !iv.loInf && !iv.hiInf && iv.lo >= 0 && big.NewInt(iv.hi).Cmp(pow10(a.width)) < 0 {
					n = x.c.Add(n, x.c.Int(int64(a.width)))
					continue
				}
				e := x.expandFmt(st, a)
				n = x.c.Add(n, x.strLen(st, e))
			case AOpq:
				if v, ok := x.forceOpq(st, a); ok {
					n = x.c.Add(n, x.strLen(st, v))
					continue
				}
				n = x.c.Add(n, x.c.Var("len!"+a.key(), SInt, ival{lo: 0, hi: 1 << 40}))
			}
			if again {
				break
			}
		}
		if !again {
			return n
		}
	}
}

// lenVar is the unknown byte length of a word of a language with non-ASCII
// symbols: at least the number of symbols, at most four times it.
func (x *Ex) lenVar(st *State, id int, d *DFA) *Term {
	hi := int64(1) << 40
	if d.maxL >= 0 {
		hi = 4 * int64(d.maxL)
	}
	return x.c.Var(fmt.Sprintf("len%d_%d", id, d.id), SInt, ival{lo: int64(d.minL), hi: hi})
}

func (d *DFA) alphabet() RSet {
	var s RSet
	for _, es := range d.edges {
		for _, e := range es {
			s = s.union(e.set)
		}
	}
	return s
}

// byteAt indexes a string.
func (x *Ex) byteAt(st *State, s Str, idx Val) *Term {
	it, ok := idx.(*Term)
	if !ok {
		unsup("index %T", idx)
	}
	if it.sort == SBV {
		it = x.c.BV2I(it)
	}
	n := x.strLen(st, s)
	if !x.decide(st, x.c.And(x.c.Ge(it, x.c.Int(0)), x.c.Lt(it, n))) {
		panic(goPanic{"index out of range of a string", nil})
	}
	i := x.concInt(st, it, "string index")
	r, ok := x.byteAtConst(st, s, i)
	if !ok {
		panic(goPanic{"index out of range of a string", nil})
	}
	return r
}

func (x *Ex) byteAtConst(st *State, s Str, i int) (*Term, bool) {
	for {
		s = st.norm(s)
		if len(s.a) == 0 {
			return nil, false
		}
		if l := s.a[0]; l.kind == ALit && i < len(l.lit) {
			return x.c.Int(int64(l.lit[i])), true
		}
		if w := x.wholeBytes(st, s.a[0]); w >= 0 && w <= i {
			i -= w
			s = Str{s.a[1:]}
			continue
		}
		ch, rest, ok := x.splitFirst(st, s)
		if !ok {
			return nil, false
		}
		x.needASCII(st, ch)
		if i == 0 {
			return ch, true
		}
		i--
		s = rest
	}
}

func (x *Ex) strSlice(st *State, s Str, lo, hi Val) Str {
	n := x.strLen(st, s)
	l, h := x.c.Int(0), n
	if lo != nil {
		l = lo.(*Term)
	}
	if hi != nil {
		h = hi.(*Term)
	}
	if !x.decide(st, x.c.And(x.c.Ge(l, x.c.Int(0)), x.c.Le(l, h), x.c.Le(h, n))) {
		panic(goPanic{"slice bounds out of range of a string", nil})
	}
	s = st.norm(s)
	if lo != nil {
		k := x.concInt(st, l, "slice bound")
		s = x.dropBytes(st, s, k)
		h = x.c.Sub(h, x.c.Int(int64(k)))
		n = x.c.Sub(n, x.c.Int(int64(k)))
	}
	if hi == nil {
		return s
	}
	// cut from the back when that is a constant, from the front otherwise
	back := x.c.Sub(n, h)
	if _, ok := back.int64(); !ok {
		if _, ok := h.int64(); !ok {
			fixed := true
			for _, a := range s.a {
				if a.kind == ASeg || a.kind == ALang {
					fixed = false
				}
			}
			if fixed {
				x.concInt(st, h, "slice bound")
			} else {
				x.concInt(st, back, "slice bound")
			}
			back = x.simp(st, back)
			h = x.simp(st, h)
		}
	}
	if b, ok := back.int64(); ok {
		for b > 0 {
			s = st.norm(s)
			if m := len(s.a); m > 0 {
				if w := x.wholeBytes(st, s.a[m-1]); w >= 0 && int64(w) <= b {
					b -= int64(w)
					s = Str{s.a[: m-1 : m-1]}
					continue
				}
			}
			b--
			ch, rest, ok := x.splitLast(st, s)
			if !ok {
				panic(infeasible{})
			}
			if x.symWidth(st, ch) != 1 {
				unsup("slicing through non-ASCII text")
			}
			s = rest
		}
		return s
	}
	k, ok := h.int64()
	if !ok {
		k = int64(x.concInt(st, h, "slice bound"))
	}
	return x.takeBytes(st, s, int(k))
}

// simp evaluates a term that the path condition fixes by an equality.
func (x *Ex) simp(st *State, t *Term) *Term {
	if t.isConst() {
		return t
	}
	r, m := x.s.Check(st.pc, x.c.Eq(x.c.Fresh2(t), t))
	if r != Sat {
		return t
	}
	v, ok := x.c.eval(t, m, map[int]bigInt{})
	if !ok {
		return t
	}
	if r, _ := x.s.Check(st.pc, x.c.Not(x.c.Eq(t, x.c.Big(v)))); r == Unsat {
		return x.c.Big(v)
	}
	return t
}

// wholeBytes is the number of bytes of an atom that has a fixed number of them,
// or -1.
func (x *Ex) wholeBytes(st *State, a Atom) int {
	switch a.kind {
	case ALit:
		return len(a.lit)
	case ALang:
		if d := x.lang(st, a.id); d.minL == d.maxL && d.alphabet().subset(asciiSet) {
			return d.minL
		}
	}
	return -1
}

func (x *Ex) dropBytes(st *State, s Str, k int) Str {
	for k > 0 {
		s = st.norm(s)
		if len(s.a) > 0 {
			if w := x.wholeBytes(st, s.a[0]); w >= 0 && w <= k {
				k -= w
				s = Str{s.a[1:]}
				continue
			}
		}
		if len(s.a) > 0 && s.a[0].kind == ALit {
			if l := s.a[0].lit; len(l) <= k {
				k -= len(l)
				s = Str{s.a[1:]}
			} else {
				return concatStr(lit(l[k:]), Str{s.a[1:]})
			}
			continue
		}
		ch, rest, ok := x.splitFirst(st, s)
		if !ok {
			panic(infeasible{})
		}
		if x.symWidth(st, ch) != 1 {
			unsup("slicing through non-ASCII text")
		}
		k--
		s = rest
	}
	return s
}

func (x *Ex) takeBytes(st *State, s Str, k int) Str {
	var parts []Str
	for k > 0 {
		s = st.norm(s)
		if len(s.a) > 0 {
			if w := x.wholeBytes(st, s.a[0]); w >= 0 && w <= k {
				k -= w
				parts = append(parts, Str{s.a[:1:1]})
				s = Str{s.a[1:]}
				continue
			}
		}
		if len(s.a) > 0 && s.a[0].kind == ALit {
			l := s.a[0].lit
			if len(l) > k {
				l = l[:k]
			}
			k -= len(l)
			parts = append(parts, lit(l))
			s = Str{s.a[1:]}
			continue
		}
		ch, rest, ok := x.splitFirst(st, s)
		if !ok {
			panic(infeasible{})
		}
		if x.symWidth(st, ch) != 1 {
			unsup("slicing through non-ASCII text")
		}
		k--
		parts = append(parts, x.charStr(ch))
		s = rest
	}
	return concatStr(parts...)
}

// ---- equality

func (x *Ex) strEq(st *State, a, b Str) *Term {
	c := x.c
	for {
		a, b = st.norm(a), st.norm(b)
		a, b = stripCommon(a, b)
		la, oka := a.isLit()
		lb, okb := b.isLit()
		if oka && okb {
			return c.Bool(la == lb)
		}
		if a.key() == b.key() {
			return c.T
		}
		// conditions on the lengths
		mina, maxa := x.lenBounds(st, a)
		minb, maxb := x.lenBounds(st, b)
		if (maxa >= 0 && maxa < minb) || (maxb >= 0 && maxb < mina) {
			return c.F
		}
		// a single language atom against a literal
		if okb {
			a, b, la, lb, oka, okb = b, a, lb, la, okb, oka
		}
		if oka && len(b.a) == 1 && b.a[0].kind == ALang {
			id := b.a[0].id
			d := x.lang(st, id)
			w := litDFA(la)
			in := d.inter(w)
			if in.isEmpty() {
				return c.F
			}
			return c.Bool(x.pickLang(st, id, in, d.minus(w)) == 0)
		}
		if oka {
			// a literal against anything: as a language
			if cond, ok := x.matchTerm(st, litDFA(la), b); ok {
				return cond
			}
		}
		if len(a.a) == 1 && len(b.a) == 1 {
			p, q := a.a[0], b.a[0]
			if p.kind == AFmt && q.kind == AFmt && p.width == q.width && p.tag == q.tag {
				return c.Eq(p.t, q.t)
			}
			if p.kind == AOpq && q.kind == AOpq && p.tag == q.tag && len(p.args) == len(q.args) && injective[p.tag] {
				var cs []*Term
				for i := range p.args {
					cs = append(cs, x.equal(st, p.args[i], q.args[i]))
				}
				return c.And(cs...)
			}
			if p.kind == ALang && q.kind == ALang {
				dp, dq := x.lang(st, p.id), x.lang(st, q.id)
				in := dp.inter(dq)
				if in.isEmpty() {
					return c.F
				}
				for _, n := range st.neq {
					if (n.a == p.id && n.b == q.id) || (n.a == q.id && n.b == p.id) {
						return c.F
					}
				}
				if x.choose(st, 2) == 0 {
					x.setLangOf(st, p.id, in)
					if _, ok := st.subst[p.id]; ok {
						st.setSubst(q.id, st.subst[p.id])
					} else {
						st.setSubst(q.id, a)
						x.unify(st, q, p)
					}
					return c.T
				}
				st.neq = append(st.neq[:len(st.neq):len(st.neq)], struct{ a, b int }{p.id, q.id})
				return c.F
			}
		}
		// symbol by symbol
		if len(a.a) == 0 || len(b.a) == 0 {
			o := a
			if len(a.a) == 0 {
				o = b
			}
			_, _, ok := x.splitFirst(st, o)
			return c.Bool(!ok)
		}
		ca, fa := fixedChars(c, a)
		cb, fb := fixedChars(c, b)
		if fa && fb {
			if len(ca) != len(cb) {
				return c.F
			}
			var cs []*Term
			for i := range ca {
				cs = append(cs, x.eqSym(ca[i], cb[i]))
			}
			return c.And(cs...)
		}
		// piece by piece, when the pieces have the same fixed lengths
		if cond, ok := x.zipEq(st, a, b); ok {
			return cond
		}
		// compare from the front, then from the back, until both are fixed
		pa, pb := a.a[0], b.a[0]
		if simpleAtom(pa) && simpleAtom(pb) {
			ha, ra, _ := x.splitFirst(st, a)
			hb, rb, _ := x.splitFirst(st, b)
			if !x.decide(st, x.eqSym(ha, hb)) {
				return c.F
			}
			a, b = ra, rb
			continue
		}
		pa, pb = a.a[len(a.a)-1], b.a[len(b.a)-1]
		if simpleAtom(pa) && simpleAtom(pb) {
			ha, ra, _ := x.splitLast(st, a)
			hb, rb, _ := x.splitLast(st, b)
			if !x.decide(st, x.eqSym(ha, hb)) {
				return c.F
			}
			a, b = ra, rb
			continue
		}
		// an opaque text equals something else: unknown
		for _, y := range []Str{a, b} {
			for _, p := range y.a {
				if p.kind == AOpq {
					if _, ok := x.forceOpq(st, p); !ok {
						unsup("comparison of opaque text %s with %s", a, b)
					}
				}
			}
		}
		ha, ra, ok1 := x.splitFirst(st, a)
		b = st.norm(b)
		hb, rb, ok2 := x.splitFirst(st, b)
		ra = st.norm(ra)
		if !ok1 || !ok2 {
			return c.Bool(ok1 == ok2)
		}
		if !x.decide(st, x.eqSym(ha, hb)) {
			return c.F
		}
		a, b = ra, rb
	}
}

// zipEq compares two strings made of corresponding pieces of equal lengths.
func (x *Ex) zipEq(st *State, a, b Str) (*Term, bool) {
	c := x.c
	var cs []*Term
	fixed := func(p Atom) bool {
		return p.width > 0 && !p.t.iv.loInf && !p.t.iv.hiInf && p.t.iv.lo >= 0 && p.t.iv.hi < pow10(p.width).Int64()
	}
	as, bs := append([]Atom{}, a.a...), append([]Atom{}, b.a...)
	for len(as) > 0 && len(bs) > 0 {
		p, q := as[0], bs[0]
		switch {
		case p.key() == q.key():
			as, bs = as[1:], bs[1:]
		case p.kind == AFmt && q.kind == AFmt && p.tag == q.tag && p.width == q.width:
			if !fixed(p) || !fixed(q) {
				return nil, false
			}
			cs = append(cs, c.Eq(p.t, q.t))
			as, bs = as[1:], bs[1:]
		case simpleAtom(p) && simpleAtom(q):
			ha, ra, _ := x.splitFirst(st, Str{[]Atom{p}})
			hb, rb, _ := x.splitFirst(st, Str{[]Atom{q}})
			cs = append(cs, x.eqSym(ha, hb))
			as, bs = append(append([]Atom{}, ra.a...), as[1:]...), append(append([]Atom{}, rb.a...), bs[1:]...)
		default:
			return nil, false
		}
	}
	if len(as) > 0 || len(bs) > 0 {
		return nil, false
	}
	return c.And(cs...), true
}

func simpleAtom(a Atom) bool { return a.kind == ALit || a.kind == AChar }

func (x *Ex) eqSym(a, b *Term) *Term {
	if a == b {
		return x.c.T
	}
	if v, ok := a.int64(); ok {
		return x.inSet(b, RSet{{int32(v), int32(v)}})
	}
	if v, ok := b.int64(); ok {
		return x.inSet(a, RSet{{int32(v), int32(v)}})
	}
	if x.crange(a).disjoint(x.crange(b)) {
		return x.c.F
	}
	return x.c.Eq(a, b)
}

var injective = map[string]bool{"time": true, "q": true}

// lenBounds are bounds of the length in symbols (-1: unbounded).
func (x *Ex) lenBounds(st *State, s Str) (int, int) {
	lo, hi := 0, 0
	add := func(l, h int) {
		lo += l
		if hi >= 0 {
			if h < 0 {
				hi = -1
			} else {
				hi += h
			}
		}
	}
	for _, a := range s.a {
		switch a.kind {
		case ALit:
			n := len(symsOf(a.lit))
			add(n, n)
		case AChar:
			add(1, 1)
		case ASeg:
			add(int(a.t.iv.lo), -1)
		case ALang:
			d := x.lang(st, a.id)
			add(d.minL, d.maxL)
		case AFmt:
			m := a.width
			if m < 1 {
				m = 1
			}
			add(m, -1)
		case AOpq:
			add(0, -1)
		}
	}
	return lo, hi
}

func stripCommon(a, b Str) (Str, Str) {
	for len(a.a) > 0 && len(b.a) > 0 {
		p, q := a.a[0], b.a[0]
		if p.kind == ALit && q.kind == ALit {
			n := 0
			for n < len(p.lit) && n < len(q.lit) && p.lit[n] == q.lit[n] {
				n++
			}
			for n > 0 && (n < len(p.lit) && p.lit[n]&0xC0 == 0x80 || n < len(q.lit) && q.lit[n]&0xC0 == 0x80) {
				n--
			}
			if n == 0 {
				break
			}
			a = concatStr(lit(p.lit[n:]), Str{a.a[1:]})
			b = concatStr(lit(q.lit[n:]), Str{b.a[1:]})
			continue
		}
		if p.kind != q.kind || p.key() != q.key() {
			break
		}
		a, b = Str{a.a[1:]}, Str{b.a[1:]}
	}
	for len(a.a) > 0 && len(b.a) > 0 {
		i, j := len(a.a)-1, len(b.a)-1
		p, q := a.a[i], b.a[j]
		if p.kind == ALit && q.kind == ALit {
			n := 0
			for n < len(p.lit) && n < len(q.lit) && p.lit[len(p.lit)-1-n] == q.lit[len(q.lit)-1-n] && p.lit[len(p.lit)-1-n] < 128 {
				n++
			}
			if n == 0 {
				break
			}
			a = concatStr(Str{a.a[:i:i]}, lit(p.lit[:len(p.lit)-n]))
			b = concatStr(Str{b.a[:j:j]}, lit(q.lit[:len(q.lit)-n]))
			continue
		}
		if p.kind != q.kind || p.key() != q.key() {
			break
		}
		a, b = Str{a.a[:i:i]}, Str{b.a[:j:j]}
	}
	return a, b
}

// strCmp is negative, zero or positive as strings.Compare.
func (x *Ex) strCmp(st *State, a, b Str) *Term {
	ca, cb := x.chars(st, a), x.chars(st, b)
	for i := 0; ; i++ {
		if i == len(ca) && i == len(cb) {
			return x.c.Int(0)
		}
		if i == len(ca) {
			return x.c.Int(-1)
		}
		if i == len(cb) {
			return x.c.Int(1)
		}
		if x.decide(st, x.eqSym(ca[i], cb[i])) {
			continue
		}
		x.needASCII(st, ca[i])
		x.needASCII(st, cb[i])
		if x.decide(st, x.c.Lt(ca[i], cb[i])) {
			return x.c.Int(-1)
		}
		return x.c.Int(1)
	}
}

// ---- searching

// containsDFA: words with an occurrence of sep.
func containsDFA(sep string) *DFA {
	r, err := compileRegex(`(?s)` + regexpQuote(sep))
	if err != nil {
		unsup("%v", err)
	}
	return r.full
}

// findFirst locates the first occurrence of sep.
func (x *Ex) findFirst(st *State, s Str, sep string) (before, after Str, found bool) {
	if sep == "" {
		return Str{}, s, true
	}
	for _, r := range sep {
		if r >= 128 {
			unsup("non-ASCII separator")
		}
	}
	syms := symsOf(sep)
	var sepSet RSet
	for _, r := range syms {
		sepSet = sepSet.union(RSet{{r, r}})
	}
	c := x.c
restart:
	s = st.norm(s)
	i := 0
	for i < len(s.a) {
		a := s.a[i]
		prev, next := Str{s.a[:i:i]}, Str{s.a[i+1:]}
		if len(syms) == 1 {
			switch a.kind {
			case ALit:
				if k := strings.Index(a.lit, sep); k >= 0 {
					return concatStr(prev, lit(a.lit[:k])), concatStr(lit(a.lit[k+1:]), next), true
				}
			case AChar:
				if x.decide(st, x.inSet(a.t, sepSet)) {
					return prev, next, true
				}
			case ASeg:
				if !a.set.disjoint(sepSet) {
					if x.decide(st, c.Eq(a.t, c.Int(0))) {
						st.setSubst(a.id, Str{})
					} else {
						x.splitSeg(st, a, false)
					}
					goto restart
				}
			case ALang:
				if x.langFind(st, a.id, sep) {
					goto restart
				}
			case AFmt:
				if sepSet.inter(RSet{{'0', '9'}, {'-', '-'}}).empty() {
					break
				}
				if sep == "-" && x.decide(st, c.Ge(a.t, c.Int(0))) {
					break
				}
				s = concatStr(prev, x.expandFmt(st, a), next)
				goto restart
			case AOpq:
				v, ok := x.forceOpq(st, a)
				if !ok {
					unsup("search in opaque text")
				}
				s = concatStr(prev, v, next)
				goto restart
			}
			i++
			continue
		}
		// longer separators
		switch a.kind {
		case ALang:
			d := x.lang(st, a.id)
			if d.inter(containsDFA(sep)).isEmpty() && (i+1 == len(s.a) || d.lastSet().disjoint(sepSet)) {
				i++
				continue
			}
			if i+1 == len(s.a) || d.lastSet().disjoint(sepSet) {
				if x.langFind(st, a.id, sep) {
					goto restart
				}
				i++
				continue
			}
			x.expand(st, a.id)
			goto restart
		case ASeg:
			if a.set.disjoint(sepSet) {
				i++
				continue
			}
			unsup("search for %q in a segment", sep)
		case AFmt:
			if sepSet.inter(RSet{{'0', '9'}, {'-', '-'}}).empty() {
				i++
				continue
			}
			s = concatStr(prev, x.expandFmt(st, a), next)
			goto restart
		case AOpq:
			v, ok := x.forceOpq(st, a)
			if !ok {
				unsup("search in opaque text")
			}
			s = concatStr(prev, v, next)
			goto restart
		}
		// a run of literals and characters, which an occurrence starting here
		// has to lie in (or extend into the next atom)
		var as []symAt
		for j := i; j < len(s.a) && len(as) < 4096; j++ {
			b := s.a[j]
			if b.kind == ALit {
				for o, r := range b.lit {
					if r >= 128 {
						as = append(as, symAt{c.Int(int64(0xFFFFF)), j, o})
						continue
					}
					as = append(as, symAt{c.Int(int64(r)), j, o})
				}
			} else if b.kind == AChar {
				as = append(as, symAt{b.t, j, 0})
			} else {
				break
			}
		}
		endsRun := 0
		if n := as[len(as)-1].atom; n+1 < len(s.a) {
			endsRun = n + 1
		}
		for k := range as {
			if as[k].atom != i {
				// later atoms of the run are handled in their own turn
				break
			}
			if k+len(syms) > len(as) {
				if endsRun > 0 {
					// could straddle into a non-character atom
					can := true
					for m := k; m < len(as); m++ {
						if x.inSet(as[m].t, RSet{{syms[m-k], syms[m-k]}}).isFalse() {
							can = false
						}
					}
					if can {
						b := s.a[endsRun]
						if b.kind == ALang {
							fs := x.lang(st, b.id).firstSet()
							if fs.disjoint(sepSet) && x.lang(st, b.id).minL > 0 {
								continue
							}
							x.expand(st, b.id)
							goto restart
						}
						if b.kind == AFmt && sepSet.inter(RSet{{'0', '9'}, {'-', '-'}}).empty() {
							continue
						}
						if b.kind == ASeg && b.set.disjoint(sepSet) {
							if x.decide(st, c.Eq(b.t, c.Int(0))) {
								st.setSubst(b.id, Str{})
								goto restart
							}
							continue
						}
						unsup("search for %q across %s", sep, s)
					}
				}
				continue
			}
			var cs []*Term
			for m := range syms {
				cs = append(cs, x.inSet(as[k+m].t, RSet{{syms[m], syms[m]}}))
			}
			if x.decide(st, c.And(cs...)) {
				e := as[k+len(syms)-1]
				bef := prev
				if a.kind == ALit {
					bef = concatStr(prev, lit(a.lit[:as[k].off]))
				}
				eb := s.a[e.atom]
				aft := Str{s.a[e.atom+1:]}
				if eb.kind == ALit {
					aft = concatStr(lit(eb.lit[e.off+1:]), aft)
				}
				return bef, aft, true
			}
		}
		i++
	}
	return s, Str{}, false
}

type symAt struct {
	t    *Term
	atom int
	off  int
}

func (d *DFA) firstSet() RSet {
	var s RSet
	for _, e := range d.edges[0] {
		s = s.union(e.set)
	}
	return s
}

func (d *DFA) lastSet() RSet {
	var s RSet
	for _, es := range d.edges {
		for _, e := range es {
			if d.acc[e.to] {
				s = s.union(e.set)
			}
		}
	}
	return s
}

// langFind decides where the first occurrence of sep in a language atom is:
// true when the atom was replaced by before+sep+after.
func (x *Ex) langFind(st *State, id int, sep string) bool {
	d := x.lang(st, id)
	has := containsDFA(sep)
	none := d.minus(has)
	// words after which sep is the first occurrence: w.sep has no occurrence
	// ending before its last symbol
	early := has.concat(setDFA(allSyms)).concat(classStar(allSyms)) // an occurrence followed by something
	ok := anyDFA.minus(early)
	lefts := map[int]bool{}
	for q := range ok.edges {
		p := q
		for _, r := range symsOf(sep) {
			if p = ok.step(p, r); p < 0 {
				break
			}
		}
		if p >= 0 && ok.acc[p] {
			lefts[q] = true
		}
	}
	left := ok.toStates(lefts)
	type grp struct{ l, r *DFA }
	byRight := map[int]*grp{}
	var order []int
	for q := range d.edges {
		p := q
		for _, r := range symsOf(sep) {
			if p = d.step(p, r); p < 0 {
				break
			}
		}
		if p < 0 {
			continue
		}
		l := d.toStates(map[int]bool{q: true}).inter(left)
		if l.isEmpty() {
			continue
		}
		r := d.from(p)
		if g, ok := byRight[r.id]; ok {
			g.l = g.l.union(l)
		} else {
			byRight[r.id] = &grp{l, r}
			order = append(order, r.id)
		}
	}
	// groups with the same left language can be joined on the right
	var gs []*grp
	for _, k := range order {
		g := byRight[k]
		joined := false
		for _, h := range gs {
			if h.l.id == g.l.id {
				h.r = h.r.union(g.r)
				joined = true
			}
		}
		if !joined {
			gs = append(gs, g)
		}
	}
	n := len(gs)
	base := 0
	if !none.isEmpty() {
		n++
		base = 1
	}
	k := x.choose(st, n)
	if base == 1 && k == 0 {
		x.setLangOf(st, id, none)
		return false
	}
	g := gs[k-base]
	l := x.subLang(st, fmt.Sprintf("%d<%d", id, g.l.id), g.l)
	r := x.subLang(st, fmt.Sprintf("%d>%d", id, g.r.id), g.r)
	st.setSubst(id, concatStr(l, lit(sep), r))
	return true
}

// subLang is langStr with an id that only depends on the name.
func (x *Ex) subLang(st *State, name string, d *DFA) Str {
	if d.isEmpty() {
		panic(infeasible{})
	}
	if w, ok := d.single(); ok {
		return lit(w)
	}
	id, ok := x.segIDs["l"+name]
	if !ok {
		id = x.newID()
		x.segIDs["l"+name] = id
	}
	st.setLang(id, d)
	return Str{[]Atom{{kind: ALang, id: id}}}
}

func (x *Ex) split(st *State, s Str, sep string) []Str {
	var out []Str
	if sep == "" {
		for _, ch := range x.chars(st, s) {
			out = append(out, x.charStr(ch))
		}
		return out
	}
	for {
		b, a, ok := x.findFirst(st, s, sep)
		if !ok {
			out = append(out, b)
			break
		}
		out = append(out, b)
		s = a
		if len(out) > 200 {
			unsup("too many parts")
		}
	}
	for i := range out {
		out[i] = st.norm(out[i])
	}
	return out
}

// hasPrefix decides and, when true, returns the rest.
func (x *Ex) hasPrefix(st *State, s Str, p string) (Str, bool) {
	s = st.norm(s)
	if p == "" {
		return s, true
	}
	if len(s.a) > 0 {
		switch a := s.a[0]; a.kind {
		case ALit:
			n := len(p)
			if len(a.lit) < n {
				n = len(a.lit)
			}
			if a.lit[:n] != p[:n] {
				return s, false
			}
			if len(a.lit) >= len(p) {
				return concatStr(lit(a.lit[len(p):]), Str{s.a[1:]}), true
			}
			return x.hasPrefix(st, Str{s.a[1:]}, p[n:])
		case ALang:
			d := x.lang(st, a.id)
			if len(s.a) == 1 || d.minL >= len(symsOf(p)) {
				pre := litDFA(p).concat(anyDFA)
				if d.subset(pre) || d.inter(pre).isEmpty() || true {
					yes := d.inter(pre)
					no := d.minus(pre)
					if yes.isEmpty() {
						return s, false
					}
					if !no.isEmpty() {
						if x.choose(st, 2) == 1 {
							x.setLangOf(st, a.id, no)
							return st.norm(s), false
						}
						x.setLangOf(st, a.id, yes)
					}
					if _, ok := st.subst[a.id]; !ok {
						q := 0
						for _, r := range symsOf(p) {
							q = yes.step(q, r)
						}
						rest := yes.from(q)
						st.setSubst(a.id, concatStr(lit(p), x.subLang(st, fmt.Sprintf("%d>p%s", a.id, p), rest)))
					}
					return x.hasPrefix(st, s, p)
				}
			}
		case AFmt:
			if p[0] == '-' && len(p) == 1 {
				if x.decide(st, x.c.Ge(a.t, x.c.Int(0))) {
					return s, false
				}
			}
		}
	}
	r := s
	for _, y := range symsOf(p) {
		ch, rest, ok := x.splitFirst(st, r)
		if !ok {
			return st.norm(s), false
		}
		if !x.decide(st, x.inSet(ch, RSet{{y, y}})) {
			return st.norm(s), false
		}
		r = rest
	}
	return st.norm(r), true
}

func (x *Ex) hasSuffix(st *State, s Str, p string) (Str, bool) {
	s = st.norm(s)
	if p == "" {
		return s, true
	}
	if n := len(s.a); n > 0 {
		a := s.a[n-1]
		if a.kind == ALit && len(a.lit) >= len(p) {
			if strings.HasSuffix(a.lit, p) {
				return concatStr(Str{s.a[: n-1 : n-1]}, lit(a.lit[:len(a.lit)-len(p)])), true
			}
			return s, false
		}
		if a.kind == ALang {
			d := x.lang(st, a.id)
			if n == 1 || d.minL >= len(symsOf(p)) {
				suf := anyDFA.concat(litDFA(p))
				yes, no := d.inter(suf), d.minus(suf)
				if yes.isEmpty() {
					return s, false
				}
				if !no.isEmpty() {
					if x.choose(st, 2) == 1 {
						x.setLangOf(st, a.id, no)
						return st.norm(s), false
					}
					x.setLangOf(st, a.id, yes)
				}
				if _, ok := st.subst[a.id]; !ok {
					qs := map[int]bool{}
					for q := range yes.edges {
						p2 := q
						for _, r := range symsOf(p) {
							if p2 = yes.step(p2, r); p2 < 0 {
								break
							}
						}
						if p2 >= 0 && yes.acc[p2] {
							qs[q] = true
						}
					}
					st.setSubst(a.id, concatStr(x.subLang(st, fmt.Sprintf("%d<s%s", a.id, p), yes.toStates(qs)), lit(p)))
				}
				return x.hasSuffix(st, s, p)
			}
		}
	}
	r := s
	ys := symsOf(p)
	for i := len(ys) - 1; i >= 0; i-- {
		ch, rest, ok := x.splitLast(st, r)
		if !ok {
			return st.norm(s), false
		}
		if !x.decide(st, x.inSet(ch, RSet{{ys[i], ys[i]}})) {
			return st.norm(s), false
		}
		r = rest
	}
	return st.norm(r), true
}

// trimSet removes leading and/or trailing symbols of a set.
// bordersNot tells whether a piece is never empty and never starts (or ends)
// with a symbol of a set.
func (x *Ex) bordersNot(st *State, a Atom, set RSet, first bool) bool {
	switch a.kind {
	case AFmt:
		return set.inter(RSet{{'-', '-'}, {'0', '9'}}).empty()
	case ALang:
		other := anySymDFA().minus(setDFA(set))
		var ok *DFA
		if first {
			ok = other.concat(classStar(allSyms))
		} else {
			ok = classStar(allSyms).concat(other)
		}
		return x.lang(st, a.id).subset(ok)
	}
	return false
}

func anySymDFA() *DFA { return setDFA(allSyms) }

// trimSet removes symbols of a set from the ends of a string.
func (x *Ex) trimSet(st *State, s Str, set RSet, left, right bool) Str {
	if left {
		for {
			s = st.norm(s)
			if len(s.a) > 0 && x.bordersNot(st, s.a[0], set, true) {
				break
			}
			if len(s.a) > 0 && s.a[0].kind == ASeg {
				if s.a[0].set.subset(set) {
					s = Str{s.a[1:]}
					continue
				}
			}
			ch, rest, ok := x.splitFirst(st, s)
			if !ok {
				return Str{}
			}
			if !x.decide(st, x.inSet(ch, set)) {
				s = st.norm(s)
				break
			}
			s = rest
		}
	}
	if right {
		for {
			s = st.norm(s)
			if n := len(s.a); n > 0 && x.bordersNot(st, s.a[n-1], set, false) {
				break
			}
			if n := len(s.a); n > 0 && s.a[n-1].kind == ASeg && s.a[n-1].set.subset(set) {
				s = Str{s.a[: n-1 : n-1]}
				continue
			}
			ch, rest, ok := x.splitLast(st, s)
			if !ok {
				return Str{}
			}
			if !x.decide(st, x.inSet(ch, set)) {
				s = st.norm(s)
				break
			}
			s = rest
		}
	}
	return s
}

// mapSyms applies a function on runes to every symbol.
func (x *Ex) mapSyms(st *State, s Str, f func(rune) rune) Str {
	s = st.norm(s)
	if l, ok := s.isLit(); ok {
		return lit(strings.Map(f, l))
	}
	var parts []Str
	for _, a := range s.a {
		if a.kind == ALang {
			d := x.lang(st, a.id)
			if same, ok := unchanged(d.alphabet(), f); ok && same {
				parts = append(parts, Str{[]Atom{a}})
				continue
			}
		}
		if a.kind == AFmt {
			parts = append(parts, Str{[]Atom{a}})
			continue
		}
		for _, b := range x.flat(st, Str{[]Atom{a}}).a {
			switch b.kind {
			case ALit:
				parts = append(parts, lit(strings.Map(f, b.lit)))
			case AChar:
				parts = append(parts, x.charStr(x.mapSym(b.t, f)))
			case ASeg:
				if same, ok := unchanged(b.set, f); !ok || !same {
					unsup("case change of a segment")
				}
				parts = append(parts, Str{[]Atom{b}})
			}
		}
	}
	return concatStr(parts...)
}

func unchanged(s RSet, f func(rune) rune) (bool, bool) {
	n := 0
	for _, r := range s {
		n += int(r.hi-r.lo) + 1
	}
	if n > 400 {
		return false, false
	}
	for _, r := range s {
		for y := r.lo; y <= r.hi; y++ {
			if y < symBad && f(rune(y)) != rune(y) {
				return false, true
			}
		}
	}
	return true, true
}

func (x *Ex) mapSym(t *Term, f func(rune) rune) *Term {
	if t.op == OIte {
		return x.c.Ite(t.args[0], x.mapSym(t.args[1], f), x.mapSym(t.args[2], f))
	}
	rs := x.crange(t)
	n := 0
	for _, r := range rs {
		n += int(r.hi-r.lo) + 1
	}
	if n > 400 {
		unsup("case change of an arbitrary character")
	}
	// runs with a constant offset
	type run struct{ lo, hi, off int32 }
	var runs []run
	for _, r := range rs {
		for y := r.lo; y <= r.hi; y++ {
			v := y
			if y < symBad {
				v = int32(f(rune(y)))
			}
			if k := len(runs); k > 0 && runs[k-1].hi == y-1 && runs[k-1].off == v-y {
				runs[k-1].hi = y
			} else {
				runs = append(runs, run{y, y, v - y})
			}
		}
	}
	// group by offset
	var res *Term
	var set RSet
	for i := len(runs) - 1; i >= 0; i-- {
		v := x.c.Add(t, x.c.Int(int64(runs[i].off)))
		if runs[i].lo == runs[i].hi {
			v = x.c.Int(int64(runs[i].lo + runs[i].off))
		}
		set = set.union(RSet{{runs[i].lo + runs[i].off, runs[i].hi + runs[i].off}})
		if res == nil {
			res = v
		} else {
			res = x.c.Ite(x.inSet(t, RSet{{runs[i].lo, runs[i].hi}}), v, res)
		}
	}
	if !res.isConst() {
		x.csets[res.id] = set
	}
	return res
}

var spaceSet = func() RSet {
	var rs []rng
	for r := rune(0); r < 0x3100; r++ {
		if unicode.IsSpace(r) {
			rs = append(rs, rng{int32(r), int32(r)})
		}
	}
	return mkRSet(rs)
}()

func regexpQuote(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			sb.WriteByte('\\')
		}
		sb.WriteRune(r)
	}
	return sb.String()
}
