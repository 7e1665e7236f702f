package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside of the repository. Each one states the documented
// behaviour of the function over symbolic values. They are trusted, except
// where selftest compares them with the real functions.

type modelFn func(x *Ex, st *State, args []Val) Val

var models map[string]modelFn

func (x *Ex) model(f *ssa.Function, args []Val) modelFn {
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if x.initing && f.Name() == "init" && f.Pkg != nil {
		// packages are initialized one by one; those outside the repository are modelled
		return func(x *Ex, st *State, args []Val) Val { return nil }
	}
	if m, ok := models[name]; ok {
		x.w.useModel(name)
		return m
	}
	return nil
}

func str(st *State, v Val) Str {
	s, ok := v.(Str)
	if !ok {
		unsup("string expected, got %T", v)
	}
	return st.norm(s)
}

func needLit(st *State, v Val, what string) string {
	l, ok := str(st, v).isLit()
	if !ok {
		unsup("%s is not a constant", what)
	}
	return l
}

func trm(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("term expected, got %T", v)
	}
	return t
}

func (x *Ex) strSliceVal(st *State, ss []Str) Slice {
	vs := make([]Val, len(ss))
	for i := range ss {
		vs[i] = ss[i]
	}
	return x.mkSlice(st, vs)
}

func (x *Ex) okErr(v Val) Val { return Tuple{v, Iface{}} }

// newErr makes an error of the type errors.New returns.
func (x *Ex) newErr(st *State, text Str) Iface {
	t := x.w.typ("errors", "errorString")
	return Iface{t: types.NewPointer(t), v: Ptr{obj: x.newObj(st, Struct{[]Val{text}})}}
}

func (x *Ex) opqErr(st *State, tag string, args ...Val) Iface {
	return x.newErr(st, Str{[]Atom{{kind: AOpq, tag: "err:" + tag, args: args}}})
}

// numErr is a *strconv.NumError.
func (x *Ex) numErr(st *State, fn string, s Str, which string) Iface {
	t := x.w.typ("strconv", "NumError")
	g := x.w.global("strconv", which)
	var e Val = Iface{}
	if g != nil {
		p := x.global(st, g).(Ptr)
		e, _ = st.get(p.obj)
	}
	return Iface{t: types.NewPointer(t), v: Ptr{obj: x.newObj(st, Struct{[]Val{lit(fn), s, e}})}}
}

// atoi parses a decimal number; bits as in ParseInt.
func (x *Ex) atoi(st *State, fn string, s0 Str, bits int, signed bool) (*Term, Val) {
	c := x.c
	s := st.norm(s0)
	if bits == 0 {
		bits = 64
	}
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		hi.Lsh(bigOne, uint(bits-1))
		lo.Neg(hi)
	} else {
		hi.Lsh(bigOne, uint(bits))
	}
	hi.Sub(hi, bigOne)
	syntax := func() (*Term, Val) { return c.Int(0), x.numErr(st, fn, s0, "ErrSyntax") }
	limits := func(v *Term) (*Term, Val) {
		if x.decide(st, c.Gt(v, c.Big(hi))) {
			return c.Big(hi), x.numErr(st, fn, s0, "ErrRange")
		}
		if signed && x.decide(st, c.Lt(v, c.Big(lo))) {
			return c.Big(lo), x.numErr(st, fn, s0, "ErrRange")
		}
		return v, Iface{}
	}
	if l, ok := s.isLit(); ok {
		body := l
		if signed && (strings.HasPrefix(l, "+") || strings.HasPrefix(l, "-")) {
			body = l[1:]
		}
		if body == "" || strings.Trim(body, "0123456789") != "" {
			return syntax()
		}
		b, _ := new(big.Int).SetString(strings.TrimPrefix(l, "+"), 10)
		return limits(c.Big(b))
	}
	// an integer that was formatted
	if len(s.a) == 1 && s.a[0].kind == AFmt && (signed || !s.a[0].t.iv.loInf && s.a[0].t.iv.lo >= 0) {
		return limits(s.a[0].t)
	}
	if len(s.a) == 2 && s.a[0].kind == ALit && signed && s.a[0].lit == "-" && s.a[1].kind == AFmt && !s.a[1].t.iv.loInf && s.a[1].t.iv.lo >= 0 {
		return limits(c.Neg(s.a[1].t))
	}
	if len(s.a) == 1 && s.a[0].kind == ALang {
		d := x.lang(st, s.a[0].id)
		pat := `^[+-]?[0-9]+$`
		if !signed {
			pat = `^[0-9]+$`
		}
		r, _ := compileRegex(pat)
		yes, no := d.inter(r.full), d.minus(r.full)
		if yes.isEmpty() {
			return syntax()
		}
		if !no.isEmpty() && x.pickLang(st, s.a[0].id, yes, no) == 1 {
			return syntax()
		}
		if yes.maxL < 0 || yes.maxL > 40 {
			// any number of digits: the value is unknown but the same for the same string
			return limits(x.numOf(st, s, signed))
		}
	}
	for _, a := range s.a {
		if a.kind == ALang && (x.lang(st, a.id).maxL < 0 || x.lang(st, a.id).maxL > 40) {
			// text of any length among other text
			pat := `^[+-]?[0-9]+$`
			if !signed {
				pat = `^[0-9]+$`
			}
			r, _ := compileRegex(pat)
			if !x.decide(st, x.match(st, r.full, s)) {
				return syntax()
			}
			return limits(x.numOf(st, st.norm(s), signed))
		}
	}
	s = x.flat(st, s)
	hasSeg := false
	for _, a := range s.a {
		if a.kind == ASeg {
			hasSeg = true
		}
	}
	if hasSeg {
		pat := `^[+-]?[0-9]+$`
		if !signed {
			pat = `^[0-9]+$`
		}
		r, _ := compileRegex(pat)
		if !x.decide(st, x.match(st, r.full, s)) {
			return syntax()
		}
		return limits(x.numOf(st, st.norm(s), signed))
	}
	chars, _ := fixedChars(c, s)
	neg := false
	if len(chars) == 0 {
		return syntax()
	}
	if signed {
		if x.decide(st, x.inSet(chars[0], RSet{{'+', '+'}, {'-', '-'}})) {
			neg = x.decide(st, x.inSet(chars[0], RSet{{'-', '-'}}))
			chars = chars[1:]
			if len(chars) == 0 {
				return syntax()
			}
		}
	}
	var conds []*Term
	v := c.Int(0)
	for i, ch := range chars {
		conds = append(conds, x.inSet(ch, digitSet))
		v = c.Add(v, c.Scale(c.Sub(ch, c.Int('0')), pow10(len(chars)-1-i)))
	}
	if !x.decide(st, c.And(conds...)) {
		return syntax()
	}
	// the bounds of the value, with the digits known to be digits
	for _, ch := range chars {
		if ch.iv.loInf || ch.iv.hiInf || ch.iv.lo < '0' || ch.iv.hi > '9' {
			d := c.Var(fmt.Sprintf("dig%d", ch.id), SInt, ival{lo: '0', hi: '9'})
			x.define(st, c.Eq(d, ch))
		}
	}
	v = c.Int(0)
	for i, ch := range chars {
		if ch.iv.loInf || ch.iv.hiInf || ch.iv.lo < '0' || ch.iv.hi > '9' {
			ch = c.Var(fmt.Sprintf("dig%d", ch.id), SInt, ival{lo: '0', hi: '9'})
		}
		v = c.Add(v, c.Scale(c.Sub(ch, c.Int('0')), pow10(len(chars)-1-i)))
	}
	if neg {
		v = c.Neg(v)
	}
	return limits(v)
}

// numOf is the value of a string of digits of unknown length.
func (x *Ex) numOf(st *State, s Str, signed bool) *Term {
	if len(s.a) > 1 && s.a[0].kind == ALit && (s.a[0].lit[0] == '-' || s.a[0].lit[0] == '+') {
		neg := s.a[0].lit[0] == '-'
		n := x.numOf(st, concatStr(lit(s.a[0].lit[1:]), Str{s.a[1:]}), false)
		if neg {
			return x.c.Neg(n)
		}
		return n
	}
	if len(s.a) > 1 && s.a[0].kind == AChar && signed {
		if x.decide(st, x.inSet(s.a[0].t, RSet{{'-', '-'}})) {
			return x.c.Neg(x.numOf(st, Str{s.a[1:]}, false))
		}
		if x.decide(st, x.inSet(s.a[0].t, RSet{{'+', '+'}})) {
			return x.numOf(st, Str{s.a[1:]}, false)
		}
	}
	if len(s.a) == 1 && s.a[0].kind == ALang && signed {
		if _, ok := x.hasPrefix(st, s, "-"); ok {
			s = st.norm(s)
			return x.numOf(st, s, signed)
		}
		if _, ok := x.hasPrefix(st, s, "+"); ok {
			return x.numOf(st, st.norm(s), signed)
		}
		s = st.norm(s)
	}
	for again := true; again; {
		again = false
		s = st.norm(s)
		for _, a := range s.a {
			if a.kind == ALang {
				d := x.lang(st, a.id)
				if d.maxL >= 0 && d.maxL <= 8 {
					x.expand(st, a.id)
					again = true
					break
				}
				// small numbers are worth a look at their digits
				small, _ := compileRegex(`^0*[0-9]{0,7}$`)
				yes, no := d.inter(small.full), d.minus(small.full)
				if !yes.isEmpty() && !no.isEmpty() {
					x.pickLang(st, a.id, yes, no)
					again = true
					break
				}
			}
		}
	}
	// leading zeros do not count
	zeros := classStar(RSet{{'0', '0'}})
	as := append([]Atom{}, s.a...)
	for len(as) > 0 {
		if as[0].kind == ALit {
			as[0].lit = strings.TrimLeft(as[0].lit, "0")
			if as[0].lit != "" {
				break
			}
		} else if !x.approx(st, as[0]).subset(zeros) {
			break
		}
		as = as[1:]
	}
	// the last digits are known one by one
	tail, k := x.c.Int(0), 0
	for len(as) > 0 && k < 40 {
		a := as[len(as)-1]
		var ds []*Term
		switch a.kind {
		case ALit:
			for i := len(a.lit) - 1; i >= 0; i-- {
				ds = append(ds, x.c.Int(int64(a.lit[i])))
			}
		case AChar:
			ds = append(ds, a.t)
		}
		if ds == nil {
			break
		}
		for _, d := range ds {
			tail = x.c.Add(tail, x.c.Scale(x.c.Sub(d, x.c.Int('0')), pow10(k)))
			k++
		}
		as = as[:len(as)-1]
	}
	if len(as) == 0 {
		return tail
	}
	iv := fullIv
	iv.loInf, iv.lo = false, 0
	hs := Str{as}
	v := x.c.Var("num!"+hs.key(), SInt, iv)
	d := litDFA("")
	for _, a := range as {
		d = d.concat(x.approx(st, a))
	}
	lo, hi := -1, -1
	for n := 1; n <= 8; n++ {
		if r, _ := compileRegex(fmt.Sprintf(`^0*[1-9][0-9]{%d,}$`, n-1)); d.subset(r.full) {
			lo = n - 1
		}
		if r, _ := compileRegex(fmt.Sprintf(`^0*[0-9]{0,%d}$`, n)); d.subset(r.full) {
			hi = n
			break
		}
	}
	if lo >= 0 {
		x.assumeTerm(st, x.c.Ge(v, x.c.Big(pow10(lo))))
	}
	if hi >= 0 {
		x.assumeTerm(st, x.c.Lt(v, x.c.Big(pow10(hi))))
	}
	return x.c.Add(x.c.Scale(v, pow10(k)), tail)
}

func (x *Ex) sprintf(st *State, format string, args []Val) (Str, []Iface) {
	var parts []Str
	var wrapped []Iface
	ai := 0
	for len(format) > 0 {
		k := strings.IndexByte(format, '%')
		if k < 0 {
			parts = append(parts, lit(format))
			break
		}
		parts = append(parts, lit(format[:k]))
		format = format[k+1:]
		j := 0
		for j < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[j]) >= 0 {
			j++
		}
		if j == len(format) {
			parts = append(parts, lit("%!(NOVERB)"))
			break
		}
		flags := format[:j]
		verb, n := utf8.DecodeRuneInString(format[j:])
		format = format[j+n:]
		if verb == '%' {
			parts = append(parts, lit("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, lit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a, ok := args[ai].(Iface)
		if !ok {
			unsup("argument of Sprintf: %T", args[ai])
		}
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		parts = append(parts, x.fmtArg(st, flags, verb, a))
	}
	if ai < len(args) {
		parts = append(parts, lit("%!(EXTRA)"))
	}
	return concatStr(parts...), wrapped
}

func (x *Ex) fmtArg(st *State, flags string, verb rune, a Iface) Str {
	opq := func() Str {
		return Str{[]Atom{{kind: AOpq, tag: "fmt%" + flags + string(verb), args: []Val{a}}}}
	}
	if a.t == nil {
		if verb == 's' || verb == 'v' || verb == 'd' {
			if verb == 'v' {
				return lit("<nil>")
			}
			return lit("%!" + string(verb) + "(<nil>)")
		}
		return opq()
	}
	b, isBasic := a.t.Underlying().(*types.Basic)
	_, named := types.Unalias(a.t).(*types.Named)
	if named {
		// Error and String methods take precedence
		ms := types.NewMethodSet(a.t)
		if ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "String") != nil {
			if !(verb == 'd') {
				return opq()
			}
		}
	}
	if !isBasic {
		return opq()
	}
	switch {
	case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') && flags == "":
		return str(st, a.v)
	case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
		t := trm(a.v)
		if t.sort == SBV {
			t = x.c.BV2I(t)
		}
		if flags == "" {
			return fmtInt(t, 0, "fmt")
		}
		if flags[0] == '0' && len(flags) <= 3 && strings.Trim(flags, "0123456789") == "" {
			w := 0
			fmt.Sscanf(flags[1:], "%d", &w)
			return fmtInt(t, w, "fmt")
		}
		// %.4d: at least four digits, sign apart
		if flags[0] == '.' && strings.Trim(flags[1:], "0123456789") == "" && len(flags) > 1 {
			w := 0
			fmt.Sscanf(flags[1:], "%d", &w)
			if x.decide(st, x.c.Lt(t, x.c.Int(0))) {
				return concatStr(lit("-"), fmtInt(x.c.Neg(t), w, "fmt"))
			}
			return fmtInt(t, w, "fmt")
		}
		if flags == "+" && verb == 'd' {
			if x.decide(st, x.c.Lt(t, x.c.Int(0))) {
				return fmtInt(t, 0, "fmt")
			}
			return concatStr(lit("+"), fmtInt(t, 0, "fmt"))
		}
	case b.Info()&types.IsInteger != 0 && verb == 'c' && flags == "":
		return x.convert(st, a.v, types.Typ[types.Int32], types.Typ[types.String]).(Str)
	}
	return opq()
}

func (x *Ex) errorf(st *State, format string, args []Val) Val {
	text, wrapped := x.sprintf(st, format, args)
	switch len(wrapped) {
	case 0:
		return x.newErr(st, text)
	case 1:
		t := x.w.typ("fmt", "wrapError")
		return Iface{t: types.NewPointer(t), v: Ptr{obj: x.newObj(st, Struct{[]Val{text, wrapped[0]}})}}
	}
	t := x.w.typ("fmt", "wrapErrors")
	vs := make([]Val, len(wrapped))
	for i := range wrapped {
		vs[i] = wrapped[i]
	}
	return Iface{t: types.NewPointer(t), v: Ptr{obj: x.newObj(st, Struct{[]Val{text, x.mkSlice(st, vs)}})}}
}

// methodOf finds a method of a dynamic value.
func (x *Ex) methodOf(e Iface, name string) *ssa.Function {
	if e.t == nil {
		return nil
	}
	ms := x.prog.MethodSets.MethodSet(e.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (x *Ex) unwrapAll(st *State, e Iface) []Iface {
	f := x.methodOf(e, "Unwrap")
	if f == nil {
		return nil
	}
	r := x.callFrom(st, Fn{f: f}, []Val{e.v})
	switch v := r.(type) {
	case Iface:
		if v.t == nil {
			return nil
		}
		return []Iface{v}
	case Slice:
		var out []Iface
		for _, y := range x.elems(st, v) {
			if i, ok := y.(Iface); ok && i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (x *Ex) errorsIs(st *State, e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && x.decide(st, x.equal(st, e, target)) {
		return true
	}
	if f := x.methodOf(e, "Is"); f != nil {
		if r, ok := x.callFrom(st, Fn{f: f}, []Val{e.v, target}).(*Term); ok && x.decide(st, r) {
			return true
		}
	}
	for _, u := range x.unwrapAll(st, e) {
		if x.errorsIs(st, u, target) {
			return true
		}
	}
	return false
}

func (x *Ex) errorsAs(st *State, e Iface, t types.Type) (Iface, bool) {
	if e.t == nil {
		return e, false
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(e.t, it) {
			return e, true
		}
	} else if types.Identical(e.t, t) {
		return e, true
	}
	if f := x.methodOf(e, "As"); f != nil {
		unsup("As method")
	}
	for _, u := range x.unwrapAll(st, e) {
		if r, ok := x.errorsAs(st, u, t); ok {
			return r, true
		}
	}
	return e, false
}

func nilPtr(v Val) bool {
	p, ok := v.(Ptr)
	return ok && p.obj == 0
}

func (x *Ex) rx(v Val) *Regex {
	if r, ok := v.(Rx); ok {
		return r.r
	}
	if nilPtr(v) {
		panic(goPanic{"nil pointer dereference (nil *regexp.Regexp)", nil})
	}
	unsup("regular expression %T", v)
	return nil
}

func (x *Ex) bytesStr(st *State, v Val) Str {
	return x.convert(st, v, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String]).(Str)
}

func (x *Ex) callPred(st *State, f Val, ch *Term) *Term {
	fn, ok := f.(Fn)
	if !ok {
		unsup("function value %T", f)
	}
	r, ok := x.callFrom(st, fn, []Val{ch}).(*Term)
	if !ok {
		unsup("predicate")
	}
	return r
}

func runeSet(f func(rune) bool, max rune) RSet {
	var rs []rng
	for r := rune(0); r <= max; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		if f(r) {
			rs = append(rs, rng{int32(r), int32(r)})
		}
	}
	return mkRSet(rs)
}

func init() {
	b := func(x *Ex, v bool) Val { return x.c.Bool(v) }
	models = map[string]modelFn{
		// ---- regexp
		"regexp.MustCompile": func(x *Ex, st *State, a []Val) Val {
			r, err := compileRegex(needLit(st, a[0], "regular expression"))
			if err != nil {
				panic(goPanic{"regexp: Compile: " + err.Error(), nil})
			}
			return Rx{r}
		},
		"regexp.Compile": func(x *Ex, st *State, a []Val) Val {
			r, err := compileRegex(needLit(st, a[0], "regular expression"))
			if err != nil {
				return Tuple{Ptr{}, x.opqErr(st, "regexp")}
			}
			return x.okErr(Rx{r})
		},
		"regexp.MatchString": func(x *Ex, st *State, a []Val) Val {
			r, err := compileRegex(needLit(st, a[0], "regular expression"))
			if err != nil {
				return Tuple{x.c.F, x.opqErr(st, "regexp")}
			}
			return x.okErr(x.match(st, r.full, str(st, a[1])))
		},
		"regexp.QuoteMeta": func(x *Ex, st *State, a []Val) Val {
			return lit(regexpQuote(needLit(st, a[0], "pattern")))
		},
		"(*regexp.Regexp).MatchString": func(x *Ex, st *State, a []Val) Val {
			return x.match(st, x.rx(a[0]).full, str(st, a[1]))
		},
		"(*regexp.Regexp).Match": func(x *Ex, st *State, a []Val) Val {
			return x.match(st, x.rx(a[0]).full, x.bytesStr(st, a[1]))
		},
		"(*regexp.Regexp).String": func(x *Ex, st *State, a []Val) Val { return lit(x.rx(a[0]).src) },
		"(*regexp.Regexp).NumSubexp": func(x *Ex, st *State, a []Val) Val {
			return x.c.Int(int64(x.rx(a[0]).ncap))
		},
		"(*regexp.Regexp).SubexpNames": func(x *Ex, st *State, a []Val) Val {
			var ss []Str
			for _, n := range x.rx(a[0]).names {
				ss = append(ss, lit(n))
			}
			return x.strSliceVal(st, ss)
		},
		"(*regexp.Regexp).SubexpIndex": func(x *Ex, st *State, a []Val) Val {
			n := needLit(st, a[1], "group name")
			for i, m := range x.rx(a[0]).names {
				if n != "" && m == n {
					return x.c.Int(int64(i))
				}
			}
			return x.c.Int(-1)
		},
		"(*regexp.Regexp).FindStringSubmatch": func(x *Ex, st *State, a []Val) Val {
			ss, ok := x.findSubmatch(st, x.rx(a[0]), str(st, a[1]))
			if !ok {
				return Slice{}
			}
			return x.strSliceVal(st, ss)
		},
		"(*regexp.Regexp).FindString": func(x *Ex, st *State, a []Val) Val {
			ss, ok := x.findSubmatch(st, x.rx(a[0]), str(st, a[1]))
			if !ok {
				return Str{}
			}
			return ss[0]
		},

		// ---- strings
		"strings.Split": func(x *Ex, st *State, a []Val) Val {
			return x.strSliceVal(st, x.split(st, str(st, a[0]), needLit(st, a[1], "separator")))
		},
		"strings.SplitN": func(x *Ex, st *State, a []Val) Val {
			n := x.concInt(st, a[2], "count")
			s, sep := str(st, a[0]), needLit(st, a[1], "separator")
			if n == 0 {
				return Slice{}
			}
			if n < 0 {
				return x.strSliceVal(st, x.split(st, s, sep))
			}
			if sep == "" {
				unsup("SplitN with an empty separator")
			}
			var out []Str
			for len(out) < n-1 {
				bf, af, ok := x.findFirst(st, s, sep)
				if !ok {
					break
				}
				out = append(out, bf)
				s = af
			}
			out = append(out, s)
			for i := range out {
				out[i] = st.norm(out[i])
			}
			return x.strSliceVal(st, out)
		},
		"strings.Cut": func(x *Ex, st *State, a []Val) Val {
			bf, af, ok := x.findFirst(st, str(st, a[0]), needLit(st, a[1], "separator"))
			return Tuple{st.norm(bf), st.norm(af), b(x, ok)}
		},
		"strings.CutPrefix": func(x *Ex, st *State, a []Val) Val {
			r, ok := x.hasPrefix(st, str(st, a[0]), needLit(st, a[1], "prefix"))
			return Tuple{r, b(x, ok)}
		},
		"strings.CutSuffix": func(x *Ex, st *State, a []Val) Val {
			r, ok := x.hasSuffix(st, str(st, a[0]), needLit(st, a[1], "suffix"))
			return Tuple{r, b(x, ok)}
		},
		"strings.Contains": func(x *Ex, st *State, a []Val) Val {
			return x.match(st, containsDFA(needLit(st, a[1], "substring")), str(st, a[0]))
		},
		"strings.ContainsRune": func(x *Ex, st *State, a []Val) Val {
			r, ok := trm(a[1]).int64()
			if !ok {
				unsup("ContainsRune of a symbolic rune")
			}
			return x.match(st, containsDFA(string(rune(r))), str(st, a[0]))
		},
		"strings.ContainsAny": func(x *Ex, st *State, a []Val) Val {
			var set RSet
			for _, y := range symsOf(needLit(st, a[1], "characters")) {
				set = set.union(RSet{{y, y}})
			}
			return x.match(st, anyDFA.concat(setDFA(set)).concat(anyDFA), str(st, a[0]))
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"strings.Count": func(x *Ex, st *State, a []Val) Val {
			return x.c.Int(int64(len(x.split(st, str(st, a[0]), needLit(st, a[1], "substring"))) - 1))
		},
		"strings.Index": func(x *Ex, st *State, a []Val) Val {
			bf, _, ok := x.findFirst(st, str(st, a[0]), needLit(st, a[1], "substring"))
			if !ok {
				return x.c.Int(-1)
			}
			return x.strLen(st, bf)
		},
		"strings.LastIndex": func(x *Ex, st *State, a []Val) Val {
			sep := needLit(st, a[1], "substring")
			if len(sep) != 1 {
				unsup("LastIndex of %q", sep)
			}
			ps := x.split(st, str(st, a[0]), sep)
			if len(ps) == 1 {
				return x.c.Int(-1)
			}
			return x.c.Sub(x.strLen(st, str(st, a[0])), x.c.Add(x.strLen(st, ps[len(ps)-1]), x.c.Int(1)))
		},
		"strings.IndexByte": func(x *Ex, st *State, a []Val) Val {
			r, ok := trm(a[1]).int64()
			if !ok || r > 127 {
				unsup("IndexByte")
			}
			bf, _, ok := x.findFirst(st, str(st, a[0]), string(rune(r)))
			if !ok {
				return x.c.Int(-1)
			}
			return x.strLen(st, bf)
		},
		"strings.HasPrefix": func(x *Ex, st *State, a []Val) Val {
			if l, ok := str(st, a[0]).isLit(); ok {
				p := str(st, a[1])
				if q, ok := p.isLit(); ok {
					return b(x, strings.HasPrefix(l, q))
				}
			}
			_, ok := x.hasPrefix(st, str(st, a[0]), needLit(st, a[1], "prefix"))
			return b(x, ok)
		},
		"strings.HasSuffix": func(x *Ex, st *State, a []Val) Val {
			_, ok := x.hasSuffix(st, str(st, a[0]), needLit(st, a[1], "suffix"))
			return b(x, ok)
		},
		"strings.TrimPrefix": func(x *Ex, st *State, a []Val) Val {
			r, _ := x.hasPrefix(st, str(st, a[0]), needLit(st, a[1], "prefix"))
			return r
		},
		"strings.TrimSuffix": func(x *Ex, st *State, a []Val) Val {
			r, _ := x.hasSuffix(st, str(st, a[0]), needLit(st, a[1], "suffix"))
			return r
		},
		"strings.Trim":      func(x *Ex, st *State, a []Val) Val { return trimModel(x, st, a, true, true) },
		"strings.TrimLeft":  func(x *Ex, st *State, a []Val) Val { return trimModel(x, st, a, true, false) },
		"strings.TrimRight": func(x *Ex, st *State, a []Val) Val { return trimModel(x, st, a, false, true) },
		"strings.TrimSpace": func(x *Ex, st *State, a []Val) Val {
			return x.trimSet(st, str(st, a[0]), spaceSet, true, true)
		},
		"strings.Repeat": func(x *Ex, st *State, a []Val) Val {
			n := x.concInt(st, a[1], "repeat count")
			if n < 0 {
				panic(goPanic{"strings: negative Repeat count", nil})
			}
			if n > 10000 {
				unsup("large repeat count")
			}
			var parts []Str
			for i := 0; i < n; i++ {
				parts = append(parts, str(st, a[0]))
			}
			return concatStr(parts...)
		},
		"strings.Join": func(x *Ex, st *State, a []Val) Val {
			var parts []Str
			for i, e := range x.elems(st, a[0].(Slice)) {
				if i > 0 {
					parts = append(parts, str(st, a[1]))
				}
				parts = append(parts, str(st, e))
			}
			return concatStr(parts...)
		},
		"strings.ToUpper": func(x *Ex, st *State, a []Val) Val { return x.mapSyms(st, str(st, a[0]), unicode.ToUpper) },
		"strings.ToLower": func(x *Ex, st *State, a []Val) Val { return x.mapSyms(st, str(st, a[0]), unicode.ToLower) },
		"strings.EqualFold": func(x *Ex, st *State, a []Val) Val {
			s, t := str(st, a[0]), str(st, a[1])
			if _, ok := s.isLit(); ok {
				s, t = t, s
			}
			l, ok := t.isLit()
			if !ok {
				unsup("EqualFold of two symbolic strings")
			}
			r, err := compileRegex(`(?is)^` + regexpQuote(l) + `$`)
			if err != nil {
				unsup("EqualFold")
			}
			return x.match(st, r.full, s)
		},
		"strings.Compare": func(x *Ex, st *State, a []Val) Val { return x.strCmp(st, str(st, a[0]), str(st, a[1])) },
		"strings.ReplaceAll": func(x *Ex, st *State, a []Val) Val {
			return replaceModel(x, st, str(st, a[0]), needLit(st, a[1], "old"), str(st, a[2]), -1)
		},
		"strings.Replace": func(x *Ex, st *State, a []Val) Val {
			return replaceModel(x, st, str(st, a[0]), needLit(st, a[1], "old"), str(st, a[2]), x.concInt(st, a[3], "count"))
		},
		"strings.Clone": func(x *Ex, st *State, a []Val) Val { return a[0] },
		"strings.Fields": func(x *Ex, st *State, a []Val) Val {
			l := needLit(st, a[0], "text")
			var ss []Str
			for _, f := range strings.Fields(l) {
				ss = append(ss, lit(f))
			}
			return x.strSliceVal(st, ss)
		},
		"(*strings.Builder).WriteString": func(x *Ex, st *State, a []Val) Val {
			bd := x.builder(st, a[0])
			x.store(st, a[0].(Ptr), Builder{concatStr(bd.s, str(st, a[1]))})
			return x.okErr(x.strLen(st, str(st, a[1])))
		},
		"(*strings.Builder).WriteByte": func(x *Ex, st *State, a []Val) Val {
			bd := x.builder(st, a[0])
			x.needASCII(st, trm(a[1]))
			x.store(st, a[0].(Ptr), Builder{concatStr(bd.s, x.charStr(trm(a[1])))})
			return Iface{}
		},
		"(*strings.Builder).WriteRune": func(x *Ex, st *State, a []Val) Val {
			bd := x.builder(st, a[0])
			s := x.convert(st, a[1], types.Typ[types.Int32], types.Typ[types.String]).(Str)
			x.store(st, a[0].(Ptr), Builder{concatStr(bd.s, s)})
			return x.okErr(x.strLen(st, s))
		},
		"(*strings.Builder).String": func(x *Ex, st *State, a []Val) Val { return x.builder(st, a[0]).s },
		"(*strings.Builder).Len":    func(x *Ex, st *State, a []Val) Val { return x.strLen(st, x.builder(st, a[0]).s) },
		"(*strings.Builder).Reset": func(x *Ex, st *State, a []Val) Val {
			x.store(st, a[0].(Ptr), Builder{})
			return nil
		},
		"(*strings.Builder).Grow": func(x *Ex, st *State, a []Val) Val { return nil },

		// ---- strconv
		"strconv.Atoi": func(x *Ex, st *State, a []Val) Val {
			v, e := x.atoi(st, "Atoi", str(st, a[0]), 64, true)
			return Tuple{v, e}
		},
		"strconv.ParseInt": func(x *Ex, st *State, a []Val) Val {
			base := x.concInt(st, a[1], "base")
			bits := x.concInt(st, a[2], "bit size")
			if base != 10 {
				if base == 0 {
					// base 10 unless the text has a prefix or underscores
					s := str(st, a[0])
					r, _ := compileRegex(`^[+-]?(0|[1-9][0-9]*)$`)
					if !x.decide(st, x.match(st, r.full, s)) {
						unsup("ParseInt with base 0")
					}
				} else {
					unsup("ParseInt with base %d", base)
				}
			}
			v, e := x.atoi(st, "ParseInt", str(st, a[0]), bits, true)
			return Tuple{v, e}
		},
		"strconv.ParseUint": func(x *Ex, st *State, a []Val) Val {
			if x.concInt(st, a[1], "base") != 10 {
				unsup("ParseUint with another base")
			}
			v, e := x.atoi(st, "ParseUint", str(st, a[0]), x.concInt(st, a[2], "bit size"), false)
			return Tuple{v, e}
		},
		"strconv.Itoa": func(x *Ex, st *State, a []Val) Val { return fmtInt(trm(a[0]), 0, "fmt") },
		"strconv.FormatInt": func(x *Ex, st *State, a []Val) Val {
			if x.concInt(st, a[1], "base") != 10 {
				unsup("FormatInt with another base")
			}
			return fmtInt(trm(a[0]), 0, "fmt")
		},
		"strconv.FormatUint": func(x *Ex, st *State, a []Val) Val {
			if x.concInt(st, a[1], "base") != 10 {
				unsup("FormatUint with another base")
			}
			return fmtInt(trm(a[0]), 0, "fmt")
		},
		"strconv.AppendInt": func(x *Ex, st *State, a []Val) Val {
			if x.concInt(st, a[2], "base") != 10 {
				unsup("AppendInt with another base")
			}
			s := concatStr(x.bytesStr(st, a[0]), fmtInt(trm(a[1]), 0, "fmt"))
			return ByteStr{s}
		},
		"strconv.Quote": func(x *Ex, st *State, a []Val) Val {
			return Str{[]Atom{{kind: AOpq, tag: "q", args: []Val{str(st, a[0])}}}}
		},

		// ---- fmt, errors
		"fmt.Sprintf": func(x *Ex, st *State, a []Val) Val {
			s, _ := x.sprintf(st, needLit(st, a[0], "format"), x.elems(st, a[1].(Slice)))
			return s
		},
		"fmt.Sprint": func(x *Ex, st *State, a []Val) Val {
			var parts []Str
			prevStr := true
			for i, e := range x.elems(st, a[0].(Slice)) {
				it := e.(Iface)
				isStr := false
				if it.t != nil {
					if bt, ok := it.t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						isStr = true
					}
				}
				if i > 0 && !isStr && !prevStr {
					parts = append(parts, lit(" "))
				}
				prevStr = isStr
				parts = append(parts, x.fmtArg(st, "", 'v', it))
			}
			return concatStr(parts...)
		},
		"fmt.Errorf": func(x *Ex, st *State, a []Val) Val {
			return x.errorf(st, needLit(st, a[0], "format"), x.elems(st, a[1].(Slice)))
		},
		"errors.New": func(x *Ex, st *State, a []Val) Val { return x.newErr(st, str(st, a[0])) },
		"errors.Is": func(x *Ex, st *State, a []Val) Val {
			return b(x, x.errorsIs(st, a[0].(Iface), a[1].(Iface)))
		},
		"errors.As": func(x *Ex, st *State, a []Val) Val {
			tg := a[1].(Iface)
			p, ok := tg.v.(Ptr)
			if tg.t == nil || !ok || p.obj == 0 {
				panic(goPanic{"errors: target must be a non-nil pointer", nil})
			}
			t := tg.t.Underlying().(*types.Pointer).Elem()
			e, ok := x.errorsAs(st, a[0].(Iface), t)
			if ok {
				if types.IsInterface(t) {
					x.store(st, p, e)
				} else {
					x.store(st, p, e.v)
				}
			}
			return b(x, ok)
		},
		"errors.AsType": func(x *Ex, st *State, a []Val) Val { unsup("errors.AsType"); return nil },
		"errors.Unwrap": func(x *Ex, st *State, a []Val) Val {
			e := a[0].(Iface)
			f := x.methodOf(e, "Unwrap")
			if f == nil || f.Signature.Results().At(0).Type().String() != "error" {
				return Iface{}
			}
			return x.callFrom(st, Fn{f: f}, []Val{e.v})
		},

		// ---- unicode
		"unicode.IsDigit": func(x *Ex, st *State, a []Val) Val {
			t := trm(a[0])
			if x.crange(t).subset(asciiSet) || x.decide(st, x.c.Lt(t, x.c.Int(128))) {
				return x.inSet(t, digitSet)
			}
			unsup("IsDigit of a non-ASCII character")
			return nil
		},
		"unicode.IsLetter": func(x *Ex, st *State, a []Val) Val { return asciiClass(x, st, a, unicode.IsLetter) },
		"unicode.IsUpper":  func(x *Ex, st *State, a []Val) Val { return asciiClass(x, st, a, unicode.IsUpper) },
		"unicode.IsLower":  func(x *Ex, st *State, a []Val) Val { return asciiClass(x, st, a, unicode.IsLower) },
		"unicode.IsSpace":  func(x *Ex, st *State, a []Val) Val { return x.inSet(trm(a[0]), spaceSet) },
		"unicode.ToUpper":  func(x *Ex, st *State, a []Val) Val { return x.mapSym(trm(a[0]), unicode.ToUpper) },
		"unicode.ToLower":  func(x *Ex, st *State, a []Val) Val { return x.mapSym(trm(a[0]), unicode.ToLower) },

		// ---- math
		"math.Abs":   func(x *Ex, st *State, a []Val) Val { return Float{math.Abs(a[0].(Float).f)} },
		"math.Floor": func(x *Ex, st *State, a []Val) Val { return Float{math.Floor(a[0].(Float).f)} },
		"math.Pow": func(x *Ex, st *State, a []Val) Val {
			return Float{math.Pow(a[0].(Float).f, a[1].(Float).f)}
		},

		// ---- math/big
		"math/big.NewFloat": func(x *Ex, st *State, a []Val) Val {
			f := a[0].(Float).f
			if f != math.Trunc(f) || math.Abs(f) > 1<<53 {
				unsup("big.NewFloat(%g)", f)
			}
			return Ptr{obj: x.newObj(st, BigFloat{mant: x.c.Int(int64(f)), neg: x.c.Bool(f < 0)})}
		},
		"math/big.NewInt": func(x *Ex, st *State, a []Val) Val {
			return Ptr{obj: x.newObj(st, BigInt{trm(a[0])})}
		},
		"math/big.ParseFloat":   parseFloatModel,
		"(*math/big.Float).Cmp": func(x *Ex, st *State, a []Val) Val { return bfCmp(x, x.bfloat(st, a[0]), x.bfloat(st, a[1])) },
		"(*math/big.Float).Sign": func(x *Ex, st *State, a []Val) Val {
			return bfCmp(x, x.bfloat(st, a[0]), BigFloat{mant: x.c.Int(0), neg: x.c.F})
		},
		"(*math/big.Float).Abs": func(x *Ex, st *State, a []Val) Val {
			f := x.bfloat(st, a[1])
			f.mant = x.c.Ite(x.c.Lt(f.mant, x.c.Int(0)), x.c.Neg(f.mant), f.mant)
			f.neg = x.c.F
			x.store(st, a[0].(Ptr), f)
			return a[0]
		},
		"(*math/big.Float).Neg": func(x *Ex, st *State, a []Val) Val {
			f := x.bfloat(st, a[1])
			x.store(st, a[0].(Ptr), BigFloat{huge: f.huge, mant: x.c.Neg(f.mant), neg: x.c.Not(f.neg)})
			return a[0]
		},
		"(*math/big.Float).Signbit": func(x *Ex, st *State, a []Val) Val { return x.bfloat(st, a[0]).neg },
		"(*math/big.Float).SetInt64": func(x *Ex, st *State, a []Val) Val {
			x.store(st, a[0].(Ptr), BigFloat{mant: trm(a[1]), neg: x.c.Lt(trm(a[1]), x.c.Int(0))})
			return a[0]
		},
		"(*math/big.Float).IsInf": func(x *Ex, st *State, a []Val) Val {
			f := x.bfloat(st, a[0])
			if f.huge {
				return b(x, x.choose(st, 2) == 1)
			}
			return x.c.F
		},
		"(*math/big.Float).IsInt": func(x *Ex, st *State, a []Val) Val {
			f := x.bfloat(st, a[0])
			if f.huge {
				return b(x, x.choose(st, 2) == 1)
			}
			return x.c.T
		},
		"(*math/big.Float).Int": func(x *Ex, st *State, a []Val) Val {
			f := x.bfloat(st, a[0])
			acc := x.c.Int(0)
			if f.huge {
				// infinite: no integer at all
				if x.choose(st, 2) == 1 {
					return Tuple{Ptr{}, acc}
				}
				v := x.c.Var(fmt.Sprintf("big!%d", x.newID()), SInt, fullIv)
				x.define(st, x.c.Ite(f.neg, x.c.Lt(v, x.c.Int(-9999)), x.c.Gt(v, x.c.Int(9999))))
				f.mant = v
			}
			if nilPtr(a[1]) {
				return Tuple{Ptr{obj: x.newObj(st, BigInt{f.mant})}, acc}
			}
			x.store(st, a[1].(Ptr), BigInt{f.mant})
			return Tuple{a[1], acc}
		},
		"(*math/big.Float).Int64": func(x *Ex, st *State, a []Val) Val {
			f := x.bfloat(st, a[0])
			if f.huge {
				unsup("Int64 of a huge number")
			}
			return Tuple{x.wrapSat(f.mant), x.c.Int(0)}
		},
		"(*math/big.Int).Abs": func(x *Ex, st *State, a []Val) Val {
			v := x.bint(st, a[1]).v
			x.store(st, a[0].(Ptr), BigInt{x.c.Ite(x.c.Lt(v, x.c.Int(0)), x.c.Neg(v), v)})
			return a[0]
		},
		"(*math/big.Int).Neg": func(x *Ex, st *State, a []Val) Val {
			x.store(st, a[0].(Ptr), BigInt{x.c.Neg(x.bint(st, a[1]).v)})
			return a[0]
		},
		"(*math/big.Int).Set": func(x *Ex, st *State, a []Val) Val {
			x.store(st, a[0].(Ptr), x.bint(st, a[1]))
			return a[0]
		},
		"(*math/big.Int).SetInt64": func(x *Ex, st *State, a []Val) Val {
			x.store(st, a[0].(Ptr), BigInt{trm(a[1])})
			return a[0]
		},
		"(*math/big.Int).Int64": func(x *Ex, st *State, a []Val) Val {
			return x.wrap(x.bint(st, a[0]).v, types.Typ[types.Int64])
		},
		"(*math/big.Int).IsInt64": func(x *Ex, st *State, a []Val) Val {
			v := x.bint(st, a[0]).v
			lo, hi, _, _ := intRange(types.Typ[types.Int64])
			return x.c.And(x.c.Ge(v, x.c.Big(lo)), x.c.Le(v, x.c.Big(hi)))
		},
		"(*math/big.Int).Sign": func(x *Ex, st *State, a []Val) Val {
			v := x.bint(st, a[0]).v
			return x.c.Ite(x.c.Lt(v, x.c.Int(0)), x.c.Int(-1), x.c.Ite(x.c.Eq(v, x.c.Int(0)), x.c.Int(0), x.c.Int(1)))
		},
		"(*math/big.Int).Cmp": func(x *Ex, st *State, a []Val) Val {
			p, q := x.bint(st, a[0]).v, x.bint(st, a[1]).v
			return x.c.Ite(x.c.Lt(p, q), x.c.Int(-1), x.c.Ite(x.c.Eq(p, q), x.c.Int(0), x.c.Int(1)))
		},
		"(*math/big.Int).CmpAbs": func(x *Ex, st *State, a []Val) Val {
			abs := func(t *Term) *Term { return x.c.Ite(x.c.Lt(t, x.c.Int(0)), x.c.Neg(t), t) }
			p, q := abs(x.bint(st, a[0]).v), abs(x.bint(st, a[1]).v)
			return x.c.Ite(x.c.Lt(p, q), x.c.Int(-1), x.c.Ite(x.c.Eq(p, q), x.c.Int(0), x.c.Int(1)))
		},

		// ---- sync: executions of one call are sequential
		"(*sync.Mutex).Lock":     func(x *Ex, st *State, a []Val) Val { return nil },
		"(*sync.Mutex).Unlock":   func(x *Ex, st *State, a []Val) Val { return nil },
		"(*sync.RWMutex).Lock":   func(x *Ex, st *State, a []Val) Val { return nil },
		"(*sync.RWMutex).Unlock": func(x *Ex, st *State, a []Val) Val { return nil },
		"(*sync.RWMutex).RLock":  func(x *Ex, st *State, a []Val) Val { return nil },
		"(*sync.RWMutex).RUnlock": func(x *Ex, st *State, a []Val) Val {
			return nil
		},
	}
	timeModels()
	specModels()
	jsonModels()
	bytesModels()
}

// ByteStr is a []byte whose contents are a string; only conversion back and
// forth is supported.
type ByteStr struct{ s Str }

// bytesModels are the functions of package bytes that have a counterpart in
// package strings.
func bytesModels() {
	for _, n := range []string{"Trim", "TrimLeft", "TrimRight", "TrimSpace", "TrimPrefix", "TrimSuffix", "HasPrefix", "HasSuffix", "Contains", "Equal"} {
		m := models["strings."+n]
		if n == "Equal" {
			m = func(x *Ex, st *State, a []Val) Val { return x.strEq(st, str(st, a[0]), str(st, a[1])) }
		}
		models["bytes."+n] = func(x *Ex, st *State, a []Val) Val {
			as := append([]Val{}, a...)
			for i := range as {
				if _, ok := as[i].(Str); !ok {
					as[i] = x.bytesStr(st, as[i])
				}
			}
			r := m(x, st, as)
			if s, ok := r.(Str); ok {
				return ByteStr{s}
			}
			return r
		}
	}
}

func asciiClass(x *Ex, st *State, a []Val, f func(rune) bool) Val {
	t := trm(a[0])
	if x.crange(t).subset(asciiSet) || x.decide(st, x.c.Lt(t, x.c.Int(128))) {
		return x.inSet(t, runeSet(f, 127))
	}
	unsup("class of a non-ASCII character")
	return nil
}

func trimModel(x *Ex, st *State, a []Val, l, r bool) Val {
	var set RSet
	for _, y := range symsOf(needLit(st, a[1], "cutset")) {
		set = set.union(RSet{{y, y}})
	}
	return x.trimSet(st, str(st, a[0]), set, l, r)
}

func replaceModel(x *Ex, st *State, s Str, old string, nw Str, n int) Val {
	if old == "" {
		unsup("Replace of the empty string")
	}
	var parts []Str
	for i := 0; n < 0 || i < n; i++ {
		bf, af, ok := x.findFirst(st, s, old)
		if !ok {
			break
		}
		parts = append(parts, bf, nw)
		s = af
	}
	parts = append(parts, s)
	for i := range parts {
		parts[i] = st.norm(parts[i])
	}
	return concatStr(parts...)
}

func (x *Ex) builder(st *State, p Val) Builder {
	pp, ok := p.(Ptr)
	if !ok {
		unsup("strings.Builder %T", p)
	}
	switch v := x.load(st, pp).(type) {
	case Builder:
		return Builder{st.norm(v.s)}
	default:
		return Builder{}
	}
}

func (x *Ex) bfloat(st *State, p Val) BigFloat {
	pp, ok := p.(Ptr)
	if !ok {
		unsup("big.Float %T", p)
	}
	switch v := x.load(st, pp).(type) {
	case BigFloat:
		return v
	case Struct:
		return BigFloat{mant: x.c.Int(0), neg: x.c.F}
	default:
		unsup("big.Float holds %T", v)
	}
	return BigFloat{}
}

func (x *Ex) bint(st *State, p Val) BigInt {
	pp, ok := p.(Ptr)
	if !ok {
		unsup("big.Int %T", p)
	}
	switch v := x.load(st, pp).(type) {
	case BigInt:
		return v
	case Struct:
		return BigInt{x.c.Int(0)}
	default:
		unsup("big.Int holds %T", v)
	}
	return BigInt{}
}

func bfCmp(x *Ex, p, q BigFloat) Val {
	c := x.c
	three := func(lt, eq *Term) *Term { return c.Ite(lt, c.Int(-1), c.Ite(eq, c.Int(0), c.Int(1))) }
	small := func(f BigFloat) bool {
		return !f.mant.iv.loInf && !f.mant.iv.hiInf && f.mant.iv.lo >= -9999 && f.mant.iv.hi <= 9999
	}
	switch {
	case !p.huge && !q.huge:
		return three(c.Lt(p.mant, q.mant), c.Eq(p.mant, q.mant))
	case p.huge && !q.huge && small(q):
		return c.Ite(p.neg, c.Int(-1), c.Int(1))
	case q.huge && !p.huge && small(p):
		return c.Ite(q.neg, c.Int(1), c.Int(-1))
	}
	unsup("comparison of huge numbers")
	return nil
}

func (x *Ex) wrapSat(t *Term) *Term {
	lo, hi, _, _ := intRange(types.Typ[types.Int64])
	return x.c.Ite(x.c.Lt(t, x.c.Big(lo)), x.c.Big(lo), x.c.Ite(x.c.Gt(t, x.c.Big(hi)), x.c.Big(hi), t))
}

// parseFloatModel: big.ParseFloat(s, 10, prec, mode) for decimal integers with
// an optional decimal exponent, and at least 64 bits of precision (prec 0).
func parseFloatModel(x *Ex, st *State, a []Val) Val {
	c := x.c
	base := x.concInt(st, a[1], "base")
	prec := x.concInt(st, a[2], "precision")
	if base != 10 || (prec != 0 && prec < 64) {
		unsup("big.ParseFloat with base %d, precision %d", base, prec)
	}
	s := str(st, a[0])
	r, _ := compileRegex(`^[+-]?[0-9]+([eE][0-9]+)?$`)
	if !x.decide(st, x.match(st, r.full, s)) {
		unsup("big.ParseFloat of other text than an integer with an optional exponent")
	}
	ss, _ := x.findSubmatchOf(st, `^([+-]?)([0-9]+)(?:[eE]([0-9]+))?$`, str(st, a[0]))
	neg := false
	if sg := st.norm(ss[1]); len(sg.a) > 0 {
		neg = x.decide(st, x.strEq(st, sg, lit("-")))
	}
	m := x.numStr(st, st.norm(ss[2]))
	e := c.Int(0)
	if es := st.norm(ss[3]); len(es.a) > 0 {
		e = x.numStr(st, es)
	}
	sgn := func(t *Term) *Term {
		if neg {
			return c.Neg(t)
		}
		return t
	}
	b10 := c.Int(10)
	ok := func(f BigFloat) Val {
		return Tuple{Ptr{obj: x.newObj(st, f)}, b10, Iface{}}
	}
	bad := func() Val {
		return Tuple{Ptr{}, c.Int(0), x.opqErr(st, "big.ParseFloat", str(st, a[0]))}
	}
	for k := int64(0); k <= 4; k++ {
		if x.decide(st, c.Eq(e, c.Int(k))) {
			return ok(BigFloat{mant: sgn(c.Scale(m, pow10(int(k)))), neg: c.Bool(neg)})
		}
	}
	if x.decide(st, c.Eq(m, c.Int(0))) {
		if !x.decide(st, c.Le(e, c.Int(1000000))) && x.choose(st, 2) == 1 {
			return bad()
		}
		return ok(BigFloat{mant: c.Int(0), neg: c.Bool(neg)})
	}
	if !x.decide(st, c.Le(e, c.Int(1000000))) {
		// exponents beyond 2^31 are an error; between the two bounds nothing is assumed
		if x.choose(st, 2) == 1 {
			return bad()
		}
	}
	return ok(BigFloat{huge: true, mant: c.Int(0), neg: c.Bool(neg)})
}

// numStr is the value of a string of digits.
func (x *Ex) numStr(st *State, s Str) *Term {
	s = st.norm(s)
	if l, ok := s.isLit(); ok {
		b, _ := new(big.Int).SetString(l, 10)
		return x.c.Big(b)
	}
	if cs, ok := fixedChars(x.c, s); ok {
		v := x.c.Int(0)
		for i, ch := range cs {
			v = x.c.Add(v, x.c.Scale(x.c.Sub(ch, x.c.Int('0')), pow10(len(cs)-1-i)))
		}
		return v
	}
	return x.numOf(st, s, false)
}

func (x *Ex) findSubmatchOf(st *State, src string, s Str) ([]Str, bool) {
	r, err := compileRegex(src)
	if err != nil {
		unsup("%v", err)
	}
	return x.findSubmatch(st, r, s)
}

// sortSlice is sort.Slice and sort.SliceStable of up to 12 elements, which both
// sort by insertion.
func sortSlice(x *Ex, st *State, a []Val) Val {
	i, ok := a[0].(Iface)
	if !ok {
		unsup("sort of %T", a[0])
	}
	s, ok := i.v.(Slice)
	if !ok {
		unsup("sort of %T", i.v)
	}
	less, ok := a[1].(Fn)
	if !ok {
		unsup("sort with %T", a[1])
	}
	if s.len > 12 {
		unsup("sort of %d elements", s.len)
	}
	at := func(i int) Ptr { return Ptr{s.obj, subPath(s.path, s.off+i)} }
	for i := 1; i < s.len; i++ {
		for j := i; j > 0; j-- {
			if !x.decide(st, trm(x.callFrom(st, less, []Val{x.c.Int(int64(j)), x.c.Int(int64(j - 1))}))) {
				break
			}
			p, q := x.load(st, at(j)), x.load(st, at(j-1))
			x.store(st, at(j), q)
			x.store(st, at(j-1), p)
		}
	}
	return nil
}
