package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed first-order expressions over mathematical integers,
// booleans and 32-bit vectors. Machine integers are represented by integers
// with explicit wrap-around (see wrapInt in exec.go), so nothing about
// overflow is assumed.

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SBV
)

type Op uint8

const (
	OConst Op = iota // Int constant
	OVar             // variable of any sort
	OLin             // const + sum coef*atom
	OMul             // nonlinear product
	ODiv             // floor division by a positive constant
	OMod             // floor modulus by a positive constant
	OIte             // any sort
	OUF              // uninterpreted function, any sort
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OLe // lin <= 0
	OEq // lin == 0, or bv equality
	OBVConst
	OBVAnd
	OBVOr
	OBVXor
	OBVNot
	OBVAdd
	OBVSub
	OI2BV
	OBV2I
	OBVShl
	OBVShr
)

type linTerm struct {
	c *big.Int
	t *Term
}

type Term struct {
	op   Op
	sort Sort
	id   int
	args []*Term
	c    *big.Int // constant of OConst, OLin; divisor of ODiv/OMod; OBVConst
	lin  []linTerm
	name string
	iv   ival
	vars []*Term // cached set of leaf variables/UF applications (sorted by id); computed lazily
	vok  bool
	neg  *Term // cached negation
	mark int
}

type ival struct {
	lo, hi       int64
	loInf, hiInf bool
}

var fullIv = ival{loInf: true, hiInf: true}

const ivMax = int64(1) << 62

func ivConst(b *big.Int) ival {
	if b.IsInt64() {
		v := b.Int64()
		if v > -ivMax && v < ivMax {
			return ival{lo: v, hi: v}
		}
	}
	// beyond the tracked range: only the sign side is kept
	if b.Sign() > 0 {
		return ival{lo: ivMax - 1, hiInf: true}
	}
	return ival{loInf: true, hi: -(ivMax - 1)}
}

func ivAdd(a, b ival) ival {
	r := ival{loInf: a.loInf || b.loInf, hiInf: a.hiInf || b.hiInf}
	if !r.loInf {
		r.lo = a.lo + b.lo
		if r.lo <= -ivMax {
			r.loInf = true
		} else if r.lo >= ivMax {
			r.lo = ivMax - 1
		}
	}
	if !r.hiInf {
		r.hi = a.hi + b.hi
		if r.hi >= ivMax {
			r.hiInf = true
		} else if r.hi <= -ivMax {
			r.hi = -(ivMax - 1)
		}
	}
	return r
}

func mulSat(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || r >= ivMax || r <= -ivMax {
		return 0, false
	}
	return r, true
}

func ivScale(a ival, k *big.Int) ival {
	if k.Sign() == 0 {
		return ival{}
	}
	if !k.IsInt64() {
		return fullIv
	}
	kk := k.Int64()
	r := ival{}
	lo, hi, loInf, hiInf := a.lo, a.hi, a.loInf, a.hiInf
	if kk < 0 {
		lo, hi, loInf, hiInf = hi, lo, hiInf, loInf
	}
	if loInf {
		r.loInf = true
	} else if v, ok := mulSat(lo, kk); ok {
		r.lo = v
	} else if (lo > 0) == (kk > 0) {
		r.lo = ivMax - 1 // very large
	} else {
		r.loInf = true
	}
	if hiInf {
		r.hiInf = true
	} else if v, ok := mulSat(hi, kk); ok {
		r.hi = v
	} else if (hi > 0) == (kk > 0) {
		r.hiInf = true
	} else {
		r.hi = -(ivMax - 1)
	}
	return r
}

func ivUnion(a, b ival) ival {
	r := ival{loInf: a.loInf || b.loInf, hiInf: a.hiInf || b.hiInf}
	if !r.loInf {
		r.lo = a.lo
		if b.lo < r.lo {
			r.lo = b.lo
		}
	}
	if !r.hiInf {
		r.hi = a.hi
		if b.hi > r.hi {
			r.hi = b.hi
		}
	}
	return r
}

type TCtx struct {
	tab    map[string]*Term
	all    []*Term
	T, F   *Term
	nfresh int
	groups map[int]*digitGroup // by the last digit
	small  map[int64]*Term
}

func NewTCtx() *TCtx {
	c := &TCtx{tab: map[string]*Term{}, small: map[int64]*Term{}}
	c.T = c.intern("T", func() *Term { return &Term{op: OTrue, sort: SBool} })
	c.F = c.intern("F", func() *Term { return &Term{op: OFalse, sort: SBool} })
	return c
}

func (c *TCtx) intern(key string, mk func() *Term) *Term {
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := mk()
	t.id = len(c.all)
	c.all = append(c.all, t)
	c.tab[key] = t
	return t
}

func (c *TCtx) Int(v int64) *Term {
	if t, ok := c.small[v]; ok {
		return t
	}
	t := c.Big(big.NewInt(v))
	c.small[v] = t
	return t
}

func (c *TCtx) Big(b *big.Int) *Term {
	k := "i" + b.String()
	return c.intern(k, func() *Term {
		v := new(big.Int).Set(b)
		return &Term{op: OConst, sort: SInt, c: v, iv: ivConst(v)}
	})
}

func (c *TCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// Var returns the variable of that name; bounds are part of its declaration.
func (c *TCtx) Var(name string, s Sort, iv ival) *Term {
	return c.intern("v"+name, func() *Term {
		return &Term{op: OVar, sort: s, name: name, iv: iv}
	})
}

func (c *TCtx) Fresh(prefix string, s Sort, iv ival) *Term {
	c.nfresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.nfresh), s, iv)
}

func (c *TCtx) UF(name string, s Sort, iv ival, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("u")
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return c.intern(sb.String(), func() *Term {
		return &Term{op: OUF, sort: s, name: name, args: args, iv: iv}
	})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OTrue }
func (t *Term) isFalse() bool { return t.op == OFalse }

func (t *Term) int64() (int64, bool) {
	if t.op == OConst && t.c.IsInt64() {
		return t.c.Int64(), true
	}
	return 0, false
}

// ---- linear arithmetic

func (c *TCtx) linOf(t *Term) (*big.Int, []linTerm) {
	switch t.op {
	case OConst:
		return t.c, nil
	case OLin:
		return t.c, t.lin
	}
	return new(big.Int), []linTerm{{big.NewInt(1), t}}
}

func (c *TCtx) mkLin(k *big.Int, ls []linTerm) *Term {
	sort.Slice(ls, func(i, j int) bool { return ls[i].t.id < ls[j].t.id })
	out := make([]linTerm, 0, len(ls))
	for _, l := range ls {
		if n := len(out); n > 0 && out[n-1].t == l.t {
			out[n-1].c = new(big.Int).Add(out[n-1].c, l.c)
			continue
		}
		out = append(out, linTerm{l.c, l.t})
	}
	o2 := out[:0]
	for _, l := range out {
		if l.c.Sign() != 0 {
			o2 = append(o2, l)
		}
	}
	out = o2
	if len(out) == 0 {
		return c.Big(k)
	}
	if len(out) > 1 && len(c.groups) > 0 {
		if k2, o2, ok := c.regroup(k, out); ok {
			return c.mkLin(k2, o2)
		}
	}
	if len(out) == 1 && k.Sign() == 0 && out[0].c.Cmp(bigOne) == 0 {
		return out[0].t
	}
	// push a lone ite with constant branches through: keeps comparisons foldable
	var sb strings.Builder
	sb.WriteString("l")
	sb.WriteString(k.String())
	for _, l := range out {
		sb.WriteByte('+')
		sb.WriteString(l.c.String())
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(l.t.id))
	}
	return c.intern(sb.String(), func() *Term {
		iv := ivConst(k)
		for _, l := range out {
			iv = ivAdd(iv, ivScale(l.t.iv, l.c))
		}
		return &Term{op: OLin, sort: SInt, c: new(big.Int).Set(k), lin: out, iv: iv}
	})
}

var bigOne = big.NewInt(1)

// digitGroup says that the digits, most significant first, are those of val.
type digitGroup struct {
	val    *Term
	digits []*Term
	def    *Term
}

// regroup replaces the weighted sum of all digits of a number by the number.
func (c *TCtx) regroup(k *big.Int, ls []linTerm) (*big.Int, []linTerm, bool) {
	at := map[int]int{}
	for i, l := range ls {
		at[l.t.id] = i
	}
	for _, l := range ls {
		g, ok := c.groups[l.t.id]
		if !ok || g.digits[len(g.digits)-1] != l.t {
			continue
		}
		base := l.c
		all := true
		for i, d := range g.digits {
			if d.isConst() {
				all = false
				break
			}
			j, ok := at[d.id]
			if !ok || ls[j].c.Cmp(new(big.Int).Mul(base, pow10(len(g.digits)-1-i))) != 0 {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		in := map[int]bool{}
		for _, d := range g.digits {
			in[d.id] = true
		}
		var out []linTerm
		for _, m := range ls {
			if !in[m.t.id] {
				out = append(out, m)
			}
		}
		kv, lv := c.linOf(g.val)
		for _, m := range lv {
			out = append(out, linTerm{new(big.Int).Mul(m.c, base), m.t})
		}
		return new(big.Int).Add(k, new(big.Int).Mul(kv, base)), out, true
	}
	return nil, nil, false
}

func (c *TCtx) Add(a, b *Term) *Term {
	ka, la := c.linOf(a)
	kb, lb := c.linOf(b)
	ls := make([]linTerm, 0, len(la)+len(lb))
	ls = append(ls, la...)
	ls = append(ls, lb...)
	return c.mkLin(new(big.Int).Add(ka, kb), ls)
}

func (c *TCtx) Scale(a *Term, k *big.Int) *Term {
	ka, la := c.linOf(a)
	ls := make([]linTerm, len(la))
	for i, l := range la {
		ls[i] = linTerm{new(big.Int).Mul(l.c, k), l.t}
	}
	return c.mkLin(new(big.Int).Mul(ka, k), ls)
}

func (c *TCtx) Neg(a *Term) *Term    { return c.Scale(a, big.NewInt(-1)) }
func (c *TCtx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func (c *TCtx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(b, a.c)
	}
	if b.isConst() {
		return c.Scale(a, b.c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(fmt.Sprintf("m%d,%d", a.id, b.id), func() *Term {
		iv := fullIv
		if !a.iv.loInf && !a.iv.hiInf && !b.iv.loInf && !b.iv.hiInf {
			first := true
			ok := true
			for _, x := range []int64{a.iv.lo, a.iv.hi} {
				for _, y := range []int64{b.iv.lo, b.iv.hi} {
					v, o := mulSat(x, y)
					if !o {
						ok = false
						continue
					}
					if first {
						iv = ival{lo: v, hi: v}
						first = false
					} else {
						iv = ivUnion(iv, ival{lo: v, hi: v})
					}
				}
			}
			if !ok {
				iv = fullIv
			}
		}
		return &Term{op: OMul, sort: SInt, args: []*Term{a, b}, iv: iv}
	})
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// FDiv is floor division by a positive constant.
func (c *TCtx) FDiv(a *Term, k *big.Int) *Term {
	if a.isConst() {
		q, m := new(big.Int).DivMod(a.c, k, new(big.Int))
		_ = m
		return c.Big(q)
	}
	if k.Cmp(bigOne) == 0 {
		return a
	}
	// split off multiples of k
	ka, la := c.linOf(a)
	var in, out []linTerm
	kq, kr := new(big.Int).DivMod(ka, k, new(big.Int))
	for _, l := range la {
		q, r := new(big.Int).DivMod(l.c, k, new(big.Int))
		if r.Sign() == 0 {
			out = append(out, linTerm{q, l.t})
		} else {
			in = append(in, l)
		}
	}
	rest := c.mkLin(kr, in)
	if len(in) == 0 {
		return c.mkLin(kq, out)
	}
	var d *Term
	if !rest.iv.loInf && !rest.iv.hiInf && k.IsInt64() {
		lo, hi := floorDiv(rest.iv.lo, k.Int64()), floorDiv(rest.iv.hi, k.Int64())
		if lo == hi {
			d = c.Int(lo)
		}
	}
	if d == nil {
		d = c.intern(fmt.Sprintf("d%d/%s", rest.id, k), func() *Term {
			iv := rest.iv
			if k.IsInt64() {
				if !iv.loInf {
					iv.lo = floorDiv(iv.lo, k.Int64())
				}
				if !iv.hiInf {
					iv.hi = floorDiv(iv.hi, k.Int64())
				}
			}
			return &Term{op: ODiv, sort: SInt, args: []*Term{rest}, c: new(big.Int).Set(k), iv: iv}
		})
	}
	return c.Add(c.mkLin(kq, out), d)
}

func (c *TCtx) FMod(a *Term, k *big.Int) *Term {
	if a.isConst() {
		_, m := new(big.Int).DivMod(a.c, k, new(big.Int))
		return c.Big(m)
	}
	ka, la := c.linOf(a)
	var in []linTerm
	kr := new(big.Int).Mod(ka, k)
	for _, l := range la {
		r := new(big.Int).Mod(l.c, k)
		if r.Sign() != 0 {
			in = append(in, linTerm{r, l.t})
		}
	}
	rest := c.mkLin(kr, in)
	if rest.isConst() {
		return rest
	}
	if !rest.iv.loInf && !rest.iv.hiInf && k.IsInt64() {
		if rest.iv.lo >= 0 && rest.iv.hi < k.Int64() {
			return rest
		}
		kk := k.Int64()
		lo, hi := floorDiv(rest.iv.lo, kk), floorDiv(rest.iv.hi, kk)
		if lo == hi {
			return c.Sub(rest, c.Int(lo*kk))
		}
	}
	// try the original too (coefficients may be negative)
	if !a.iv.loInf && !a.iv.hiInf && k.IsInt64() {
		kk := k.Int64()
		lo, hi := floorDiv(a.iv.lo, kk), floorDiv(a.iv.hi, kk)
		if lo == hi {
			return c.Sub(a, c.Int(lo*kk))
		}
	}
	return c.intern(fmt.Sprintf("o%d%%%s", rest.id, k), func() *Term {
		iv := ival{lo: 0, hiInf: true}
		if k.IsInt64() && k.Int64() < ivMax {
			iv = ival{lo: 0, hi: k.Int64() - 1}
		}
		return &Term{op: OMod, sort: SInt, args: []*Term{rest}, c: new(big.Int).Set(k), iv: iv}
	})
}

// ---- booleans

func (c *TCtx) Not(a *Term) *Term {
	if a.neg == nil {
		a.neg = c.not(a)
	}
	return a.neg
}

func (c *TCtx) not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return a.args[0]
	case OLe: // !(x<=0)  ==  -x+1 <= 0
		return c.Le0(c.Add(c.Neg(a.args[0]), c.Int(1)))
	}
	return c.intern("!"+strconv.Itoa(a.id), func() *Term {
		return &Term{op: ONot, sort: SBool, args: []*Term{a}}
	})
}

func (c *TCtx) And(as ...*Term) *Term { return c.nary(OAnd, as) }
func (c *TCtx) Or(as ...*Term) *Term  { return c.nary(OOr, as) }

func (c *TCtx) nary(op Op, as []*Term) *Term {
	zero, unit := c.F, c.T
	if op == OOr {
		zero, unit = c.T, c.F
	}
	var ts []*Term
	for _, t := range as {
		switch {
		case t == unit:
		case t == zero:
			return zero
		case t.op == op:
			ts = append(ts, t.args...)
		default:
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return unit
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	n := 0
	for i, t := range ts {
		if i == 0 || ts[n-1] != t {
			ts[n] = t
			n++
		}
	}
	ts = ts[:n]
	if n == 1 {
		return ts[0]
	}
	for _, t := range ts {
		m := c.Not(t)
		i := sort.Search(n, func(i int) bool { return ts[i].id >= m.id })
		if i < n && ts[i] == m {
			return zero
		}
	}
	if op == OOr {
		// factor common conjuncts: (P&A) | (P&B) = P & (A|B)
		fac := conj(ts[0])
		for _, t := range ts[1:] {
			if len(fac) == 0 {
				break
			}
			fac = inter(fac, conj(t))
		}
		if len(fac) > 0 {
			var rest []*Term
			for _, t := range ts {
				var xs []*Term
				for _, x := range conj(t) {
					if len(inter(fac, []*Term{x})) == 0 {
						xs = append(xs, x)
					}
				}
				rest = append(rest, c.And(xs...))
			}
			return c.And(append(append([]*Term{}, fac...), c.Or(rest...))...)
		}
	}
	kb := make([]byte, 0, 8*n)
	if op == OAnd {
		kb = append(kb, '&')
	} else {
		kb = append(kb, '|')
	}
	args := make([]*Term, n)
	for i, t := range ts {
		args[i] = t
		kb = strconv.AppendInt(kb, int64(t.id), 10)
		kb = append(kb, ',')
	}
	return c.intern(string(kb), func() *Term { return &Term{op: op, sort: SBool, args: args} })
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

// inter intersects two lists sorted by id.
func inter(a, b []*Term) []*Term {
	var out []*Term
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			i++
		default:
			j++
		}
	}
	return out
}

// Le0 is t <= 0.
func (c *TCtx) Le0(t *Term) *Term {
	if !t.iv.hiInf && t.iv.hi <= 0 {
		return c.T
	}
	if !t.iv.loInf && t.iv.lo > 0 {
		return c.F
	}
	if t.op == OConst {
		return c.Bool(t.c.Sign() <= 0)
	}
	if t.op == OIte {
		return c.Ite(t.args[0], c.Le0(t.args[1]), c.Le0(t.args[2]))
	}
	if t.op == OLin {
		if len(t.lin) == 1 && t.lin[0].t.op == OIte {
			it := t.lin[0].t
			f := func(x *Term) *Term {
				return c.Le0(c.Add(c.Scale(x, t.lin[0].c), c.Big(t.c)))
			}
			return c.Ite(it.args[0], f(it.args[1]), f(it.args[2]))
		}
		g := new(big.Int)
		for _, l := range t.lin {
			g.GCD(nil, nil, g, new(big.Int).Abs(l.c))
		}
		if g.Cmp(bigOne) > 0 {
			ls := make([]linTerm, len(t.lin))
			for i, l := range t.lin {
				ls[i] = linTerm{new(big.Int).Quo(l.c, g), l.t}
			}
			// k + g*x <= 0  <=>  x <= floor(-k/g)  <=> x - floor(-k/g) <= 0
			f := new(big.Int).Neg(t.c)
			f, _ = f.DivMod(f, g, new(big.Int))
			return c.Le0(c.mkLin(f.Neg(f), ls))
		}
	}
	return c.intern("<"+strconv.Itoa(t.id), func() *Term { return &Term{op: OLe, sort: SBool, args: []*Term{t}} })
}

func (c *TCtx) Le(a, b *Term) *Term { return c.Le0(c.Sub(a, b)) }
func (c *TCtx) Lt(a, b *Term) *Term { return c.Le0(c.Add(c.Sub(a, b), c.Int(1))) }
func (c *TCtx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *TCtx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *TCtx) Eq0(t *Term) *Term {
	if t.op == OConst {
		return c.Bool(t.c.Sign() == 0)
	}
	if (!t.iv.loInf && t.iv.lo > 0) || (!t.iv.hiInf && t.iv.hi < 0) {
		return c.F
	}
	if t.op == OIte {
		return c.Ite(t.args[0], c.Eq0(t.args[1]), c.Eq0(t.args[2]))
	}
	if t.op == OLin {
		if len(t.lin) == 1 && t.lin[0].t.op == OIte {
			it := t.lin[0].t
			f := func(x *Term) *Term {
				return c.Eq0(c.Add(c.Scale(x, t.lin[0].c), c.Big(t.c)))
			}
			return c.Ite(it.args[0], f(it.args[1]), f(it.args[2]))
		}
		g := new(big.Int)
		for _, l := range t.lin {
			g.GCD(nil, nil, g, new(big.Int).Abs(l.c))
		}
		if g.Cmp(bigOne) > 0 {
			if new(big.Int).Mod(t.c, g).Sign() != 0 {
				return c.F
			}
		} else {
			g = big.NewInt(1)
		}
		if t.lin[0].c.Sign() < 0 {
			g = new(big.Int).Neg(g)
		}
		if g.Cmp(bigOne) != 0 {
			ls := make([]linTerm, len(t.lin))
			for i, l := range t.lin {
				ls[i] = linTerm{new(big.Int).Quo(l.c, g), l.t}
			}
			t = c.mkLin(new(big.Int).Quo(t.c, g), ls)
		}
	}
	return c.intern("="+strconv.Itoa(t.id), func() *Term { return &Term{op: OEq, sort: SBool, args: []*Term{t}} })
}

// Eq compares two terms of the same sort.
func (c *TCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	switch a.sort {
	case SInt:
		return c.Eq0(c.Sub(a, b))
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
		return c.And(c.Or(c.Not(a), b), c.Or(a, c.Not(b)))
	}
	if a.op == OBVConst && b.op == OBVConst {
		return c.Bool(a.c.Cmp(b.c) == 0)
	}
	if a.op == OIte {
		if b.op == OBVConst {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
	} else if b.op == OIte && a.op == OBVConst {
		return c.Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern("b="+strconv.Itoa(a.id)+","+strconv.Itoa(b.id), func() *Term { return &Term{op: OEq, sort: SBool, args: []*Term{a, b}} })
}

func (c *TCtx) Ite(p, a, b *Term) *Term {
	if p.isTrue() || a == b {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
		return c.Or(c.And(p, a), c.And(c.Not(p), b))
	}
	if p.op == ONot {
		return c.Ite(p.args[0], b, a)
	}
	// nested ite on the same condition
	if a.op == OIte && a.args[0] == p {
		return c.Ite(p, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == p {
		return c.Ite(p, a, b.args[2])
	}
	return c.intern(fmt.Sprintf("?%d,%d,%d", p.id, a.id, b.id), func() *Term {
		return &Term{op: OIte, sort: a.sort, args: []*Term{p, a, b}, iv: ivUnion(a.iv, b.iv)}
	})
}

// ---- bit vectors (32 bits)

var mask32 = new(big.Int).Sub(new(big.Int).Lsh(bigOne, 32), bigOne)

func (c *TCtx) BV(v *big.Int) *Term {
	w := new(big.Int).And(v, mask32)
	return c.intern("B"+w.String(), func() *Term { return &Term{op: OBVConst, sort: SBV, c: w} })
}

func (c *TCtx) BVBin(op Op, a, b *Term) *Term {
	if a.op == OBVConst && b.op == OBVConst {
		r := new(big.Int)
		switch op {
		case OBVAnd:
			r.And(a.c, b.c)
		case OBVOr:
			r.Or(a.c, b.c)
		case OBVXor:
			r.Xor(a.c, b.c)
		case OBVAdd:
			r.Add(a.c, b.c)
		case OBVSub:
			r.Sub(a.c, b.c)
			r.And(r, mask32)
		case OBVShl:
			r.Lsh(a.c, uint(b.c.Uint64()&63))
			if b.c.Uint64() >= 32 {
				r.SetInt64(0)
			}
		case OBVShr:
			if b.c.Uint64() < 32 {
				r.Rsh(a.c, uint(b.c.Uint64()))
			}
		}
		return c.BV(r)
	}
	isZ := func(t *Term) bool { return t.op == OBVConst && t.c.Sign() == 0 }
	isO := func(t *Term) bool { return t.op == OBVConst && t.c.Cmp(mask32) == 0 }
	switch op {
	case OBVAnd:
		if isZ(a) || isO(b) {
			return a
		}
		if isZ(b) || isO(a) {
			return b
		}
		if a == b {
			return a
		}
	case OBVOr:
		if isZ(a) || isO(b) {
			return b
		}
		if isZ(b) || isO(a) {
			return a
		}
		if a == b {
			return a
		}
	case OBVXor:
		if isZ(a) {
			return b
		}
		if isZ(b) {
			return a
		}
		if a == b {
			return c.BV(new(big.Int))
		}
	case OBVAdd, OBVSub:
		if isZ(b) {
			return a
		}
	}
	// distribute over ite with constants
	if a.op == OIte && b.op == OBVConst {
		return c.Ite(a.args[0], c.BVBin(op, a.args[1], b), c.BVBin(op, a.args[2], b))
	}
	if b.op == OIte && a.op == OBVConst {
		return c.Ite(b.args[0], c.BVBin(op, a, b.args[1]), c.BVBin(op, a, b.args[2]))
	}
	if op == OBVAnd || op == OBVOr || op == OBVXor || op == OBVAdd {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.intern(fmt.Sprintf("V%d:%d,%d", op, a.id, b.id), func() *Term {
		return &Term{op: op, sort: SBV, args: []*Term{a, b}}
	})
}

func (c *TCtx) BVNot(a *Term) *Term {
	if a.op == OBVConst {
		return c.BV(new(big.Int).Xor(a.c, mask32))
	}
	if a.op == OBVNot {
		return a.args[0]
	}
	return c.intern(fmt.Sprintf("V~%d", a.id), func() *Term { return &Term{op: OBVNot, sort: SBV, args: []*Term{a}} })
}

func (c *TCtx) I2BV(a *Term) *Term {
	if a.op == OConst {
		m := new(big.Int).Mod(a.c, new(big.Int).Lsh(bigOne, 32))
		return c.BV(m)
	}
	if a.op == OBV2I {
		return a.args[0]
	}
	if a.op == OIte {
		return c.Ite(a.args[0], c.I2BV(a.args[1]), c.I2BV(a.args[2]))
	}
	return c.intern(fmt.Sprintf("Vi%d", a.id), func() *Term { return &Term{op: OI2BV, sort: SBV, args: []*Term{a}} })
}

func (c *TCtx) BV2I(a *Term) *Term {
	if a.op == OBVConst {
		return c.Big(a.c)
	}
	if a.op == OIte {
		return c.Ite(a.args[0], c.BV2I(a.args[1]), c.BV2I(a.args[2]))
	}
	return c.intern(fmt.Sprintf("Vn%d", a.id), func() *Term {
		return &Term{op: OBV2I, sort: SInt, args: []*Term{a}, iv: ival{lo: 0, hi: 1<<32 - 1}}
	})
}

// ---- traversal

// leaves returns the variables and UF applications a term depends on.
func (c *TCtx) leaves(t *Term) []*Term {
	if t.vok {
		return t.vars
	}
	set := map[int]*Term{}
	var kids []*Term
	kids = append(kids, t.args...)
	for _, l := range t.lin {
		kids = append(kids, l.t)
	}
	for _, k := range kids {
		for _, v := range c.leaves(k) {
			set[v.id] = v
		}
	}
	if t.op == OVar || t.op == OUF {
		set[t.id] = t
	}
	ids := make([]int, 0, len(set))
	for id := range set {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	t.vars = make([]*Term, len(ids))
	for i, id := range ids {
		t.vars[i] = set[id]
	}
	t.vok = true
	return t.vars
}

// Model maps leaf ids to values (booleans as 0/1).
type Model map[int]*big.Int

// eval evaluates t under m; ok is false when a leaf has no value.
func (c *TCtx) eval(t *Term, m Model, memo map[int]*big.Int) (*big.Int, bool) {
	switch t.op {
	case OConst, OBVConst:
		return t.c, true
	case OTrue:
		return bigOne, true
	case OFalse:
		return new(big.Int), true
	case OVar, OUF:
		v, ok := m[t.id]
		return v, ok
	}
	if v, ok := memo[t.id]; ok {
		return v, v != nil
	}
	v, ok := c.eval1(t, m, memo)
	if !ok {
		memo[t.id] = nil
		return nil, false
	}
	memo[t.id] = v
	return v, true
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return new(big.Int)
}

func (c *TCtx) eval1(t *Term, m Model, memo map[int]*big.Int) (*big.Int, bool) {
	switch t.op {
	case OLin:
		r := new(big.Int).Set(t.c)
		for _, l := range t.lin {
			v, ok := c.eval(l.t, m, memo)
			if !ok {
				return nil, false
			}
			r.Add(r, new(big.Int).Mul(l.c, v))
		}
		return r, true
	case OIte:
		p, ok := c.eval(t.args[0], m, memo)
		if !ok {
			return nil, false
		}
		if p.Sign() != 0 {
			return c.eval(t.args[1], m, memo)
		}
		return c.eval(t.args[2], m, memo)
	case OAnd, OOr:
		unknown := false
		for _, a := range t.args {
			v, ok := c.eval(a, m, memo)
			if !ok {
				unknown = true
				continue
			}
			if (v.Sign() != 0) == (t.op == OOr) {
				return b2i(t.op == OOr), true
			}
		}
		if unknown {
			return nil, false
		}
		return b2i(t.op == OAnd), true
	}
	vs := make([]*big.Int, len(t.args))
	for i, a := range t.args {
		v, ok := c.eval(a, m, memo)
		if !ok {
			return nil, false
		}
		vs[i] = v
	}
	switch t.op {
	case OMul:
		return new(big.Int).Mul(vs[0], vs[1]), true
	case ODiv:
		q, _ := new(big.Int).DivMod(vs[0], t.c, new(big.Int))
		return q, true
	case OMod:
		return new(big.Int).Mod(vs[0], t.c), true
	case ONot:
		return b2i(vs[0].Sign() == 0), true
	case OLe:
		return b2i(vs[0].Sign() <= 0), true
	case OEq:
		if len(vs) == 2 {
			return b2i(vs[0].Cmp(vs[1]) == 0), true
		}
		return b2i(vs[0].Sign() == 0), true
	case OBVAnd:
		return new(big.Int).And(vs[0], vs[1]), true
	case OBVOr:
		return new(big.Int).Or(vs[0], vs[1]), true
	case OBVXor:
		return new(big.Int).Xor(vs[0], vs[1]), true
	case OBVNot:
		return new(big.Int).Xor(vs[0], mask32), true
	case OBVAdd:
		r := new(big.Int).Add(vs[0], vs[1])
		return r.And(r, mask32), true
	case OBVSub:
		r := new(big.Int).Sub(vs[0], vs[1])
		return r.Mod(r, new(big.Int).Lsh(bigOne, 32)), true
	case OI2BV:
		return new(big.Int).Mod(vs[0], new(big.Int).Lsh(bigOne, 32)), true
	case OBV2I:
		return vs[0], true
	case OBVShl:
		if vs[1].Cmp(big.NewInt(32)) >= 0 {
			return new(big.Int), true
		}
		r := new(big.Int).Lsh(vs[0], uint(vs[1].Uint64()))
		return r.And(r, mask32), true
	case OBVShr:
		if vs[1].Cmp(big.NewInt(32)) >= 0 {
			return new(big.Int), true
		}
		return new(big.Int).Rsh(vs[0], uint(vs[1].Uint64())), true
	}
	return nil, false
}

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	switch t.op {
	case OConst:
		return t.c.String()
	case OBVConst:
		return "bv" + t.c.String()
	case OVar:
		return t.name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OLin:
		s := t.c.String()
		for _, l := range t.lin {
			s += "+" + l.c.String() + "*" + l.t.str(d-1)
		}
		return "(" + s + ")"
	}
	names := map[Op]string{OMul: "*", ODiv: "div", OMod: "mod", OIte: "ite", ONot: "!", OAnd: "and", OOr: "or", OLe: "<=0", OEq: "=", OBVAnd: "bvand", OBVOr: "bvor", OBVXor: "bvxor", OBVNot: "bvnot", OI2BV: "i2bv", OBV2I: "bv2i", OUF: t.name}
	s := "(" + names[t.op]
	for _, a := range t.args {
		s += " " + a.str(d-1)
	}
	if t.op == ODiv || t.op == OMod {
		s += " " + t.c.String()
	}
	return s + ")"
}
