package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
)

// Generation of arguments for the native search of failing inputs. The search
// decides nothing: it only looks for an input that shows what a failed or
// undecided obligation is about.

// paramKinds are the types of the parameters of a condition.
func paramKinds(c *Contract) []string {
	var kinds []string
	for _, f := range strings.Split(c.Params, ",") {
		fs := strings.Fields(f)
		if len(fs) > 0 {
			kinds = append(kinds, fs[len(fs)-1])
		}
	}
	return kinds
}

// paramLangs are the languages that the preconditions of a condition demand of
// its parameters (spec.InLang(x, "...") as a conjunct).
func paramLangs(c *Contract) []*syntax.Regexp {
	byName := map[string]*syntax.Regexp{}
	var conj func(e ast.Expr)
	conj = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			conj(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				conj(e.X)
				conj(e.Y)
			}
		case *ast.CallExpr:
			if f, ok := e.Fun.(*ast.SelectorExpr); !ok || f.Sel.Name != "InLang" || len(e.Args) != 2 {
				return
			}
			id, ok1 := e.Args[0].(*ast.Ident)
			lit, ok2 := e.Args[1].(*ast.BasicLit)
			if !ok1 || !ok2 || byName[id.Name] != nil {
				return
			}
			p, err := strconv.Unquote(lit.Value)
			if err != nil {
				return
			}
			if !strings.HasPrefix(strings.TrimPrefix(p, "(?i)"), "^") || !strings.HasSuffix(p, "$") {
				return
			}
			if rx, err := syntax.Parse(p, syntax.Perl); err == nil {
				byName[id.Name] = rx
			}
		}
	}
	for _, cl := range c.Clauses {
		if cl.kind == "requires" || cl.kind == "case" {
			if e, err := parser.ParseExpr(cl.text); err == nil {
				conj(e)
			}
		}
	}
	var ls []*syntax.Regexp
	for _, f := range strings.Split(c.Params, ",") {
		fs := strings.Fields(f)
		if len(fs) > 0 {
			ls = append(ls, byName[fs[0]])
		}
	}
	return ls
}

// paramHints are the roles and the bounds that the preconditions of a condition
// give to its numbers: spec.Exists(y, m, d), and lo <= x, x <= hi as conjuncts.
type paramHint struct {
	role         string
	lo, hi       int64
	hasLo, hasHi bool
}

func paramHints(c *Contract) []paramHint {
	by := map[string]*paramHint{}
	at := func(e ast.Expr) *paramHint {
		id, ok := e.(*ast.Ident)
		if !ok {
			return &paramHint{}
		}
		if by[id.Name] == nil {
			by[id.Name] = &paramHint{}
		}
		return by[id.Name]
	}
	num := func(e ast.Expr) (int64, bool) {
		neg := false
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.SUB {
			neg, e = true, u.X
		}
		l, ok := e.(*ast.BasicLit)
		if !ok || l.Kind != token.INT {
			return 0, false
		}
		v, err := strconv.ParseInt(l.Value, 10, 64)
		if neg {
			v = -v
		}
		return v, err == nil
	}
	var conj func(e ast.Expr)
	conj = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			conj(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				conj(e.X)
				conj(e.Y)
				return
			}
			a, b, d := e.X, e.Y, int64(0)
			switch e.Op {
			case token.LEQ:
			case token.LSS:
				d = 1
			case token.GEQ:
				a, b = b, a
			case token.GTR:
				a, b, d = b, a, 1
			default:
				return
			}
			if v, ok := num(a); ok {
				h := at(b)
				h.lo, h.hasLo = v+d, true
			}
			if v, ok := num(b); ok {
				h := at(a)
				h.hi, h.hasHi = v-d, true
			}
		case *ast.CallExpr:
			if f, ok := e.Fun.(*ast.SelectorExpr); ok && f.Sel.Name == "Exists" && len(e.Args) == 3 {
				for i, r := range []string{"year", "month", "day"} {
					at(e.Args[i]).role = r
				}
			}
		}
	}
	for _, cl := range c.Clauses {
		if cl.kind == "requires" {
			if e, err := parser.ParseExpr(cl.text); err == nil {
				conj(e)
			}
		}
	}
	var hs []paramHint
	for _, f := range strings.Split(c.Params, ",") {
		if fs := strings.Fields(f); len(fs) > 0 {
			h := by[fs[0]]
			if h == nil {
				h = &paramHint{}
			}
			hs = append(hs, *h)
		}
	}
	return hs
}

// hinted is a number in the role and within the bounds of a parameter.
func (g *gen) hinted(h paramHint) (int64, bool) {
	num := func(s string) (int64, bool) {
		v, err := strconv.ParseInt(s, 10, 64)
		return v, err == nil
	}
	switch {
	case h.role == "year" || h.hasLo && h.hasHi && h.lo <= -9998 && h.lo >= -10000 && h.hi >= 9998 && h.hi <= 10000:
		return num(g.year())
	case h.role == "month":
		return num(g.month())
	case h.role == "day":
		return num(g.day())
	case h.hasLo && h.hasHi && h.lo <= h.hi && h.hi-h.lo >= 0 && h.hi-h.lo < 1<<40:
		switch {
		case g.extreme == 1 || g.r.Intn(6) == 0:
			return h.lo, true
		case g.extreme == 2 || g.r.Intn(6) == 0:
			return h.hi, true
		}
		return h.lo + g.r.Int63n(h.hi-h.lo+1), true
	}
	return 0, false
}

// member is a random member of a language, biased towards years, months and days.
func (g *gen) member(rx *syntax.Regexp) string {
	r := g.r
	switch rx.Op {
	case syntax.OpLiteral:
		var b strings.Builder
		for _, c := range rx.Rune {
			if rx.Flags&syntax.FoldCase != 0 {
				for k := r.Intn(3); k > 0; k-- {
					c = unicode.SimpleFold(c)
				}
			}
			b.WriteRune(c)
		}
		return b.String()
	case syntax.OpCharClass:
		n := len(rx.Rune) / 2
		if n == 0 {
			return ""
		}
		// the last ranges are the letters; digits more often than not
		i := r.Intn(n)
		lo, hi := rx.Rune[2*i], rx.Rune[2*i+1]
		if lo > 127 || hi > 127 {
			lo, hi = rx.Rune[0], rx.Rune[1]
		}
		k := r.Intn(4)
		if g.extreme > 0 && r.Intn(8) > 0 {
			k = g.extreme - 1
		}
		switch k {
		case 0:
			return string(lo)
		case 1:
			if hi < 128 {
				return string(hi)
			}
		}
		if hi > 127 {
			hi = 126
		}
		if hi < lo {
			return string(lo)
		}
		return string(lo + rune(r.Intn(int(hi-lo)+1)))
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return pick(r, "0", "1", "X", "-", "/", ".", ",", "\"", "T", "a", "é", " ")
	case syntax.OpCapture:
		return g.member(rx.Sub[0])
	case syntax.OpConcat:
		s := ""
		for i := 0; i < len(rx.Sub); i++ {
			s += g.member(rx.Sub[i])
		}
		return s
	case syntax.OpAlternate:
		if g.extreme == 2 && r.Intn(2) == 0 {
			return g.member(rx.Sub[len(rx.Sub)-1])
		}
		return g.member(rx.Sub[r.Intn(len(rx.Sub))])
	case syntax.OpQuest:
		if r.Intn(2) == 0 {
			return g.member(rx.Sub[0])
		}
		return ""
	case syntax.OpStar, syntax.OpPlus, syntax.OpRepeat:
		min, max := 0, 3
		if rx.Op == syntax.OpPlus {
			min = 1
		}
		if rx.Op == syntax.OpRepeat {
			min = rx.Min
			if max = rx.Max; max < 0 {
				max = min + 3
			}
		}
		if e := rx.Sub[0].String(); max == min && (e == "[0-9]" || e == "[0-9X]") {
			s := ""
			switch min {
			case 4:
				s = strings.TrimPrefix(g.year(), "-")
			case 2:
				s = pick(r, g.month(), g.day(), g.month(), g.day(), "00", "23", "59", "60", "24")
			}
			if s != "" {
				if e == "[0-9X]" {
					s = g.xs(s)
				}
				return s
			}
		}
		n := min + r.Intn(max-min+1)
		s := ""
		for i := 0; i < n; i++ {
			s += g.member(rx.Sub[0])
		}
		return s
	}
	return ""
}

type gen struct {
	r     *rand.Rand
	years []string
	ints  []int64

	extreme int // 1: the lowest, 2: the highest of a range
}

// repoTexts are the short string literals of the code under test.
var repoTexts []string

// disguise makes a text that resembles another one.
func (g *gen) disguise(s string) string {
	r := g.r
	switch r.Intn(9) {
	case 0:
		return s + pick(r, " ", "\n", "\t", "\r\n", "\u00a0", "\x00", "\n1985", "\nx", ".", "?", "Z", "/", "\xff", "\u0661")
	case 1:
		return pick(r, " ", "\n", "\t", "x\n", "1985\n", "+", "\ufeff", "(", "0") + s
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		return strings.Title(s)
	case 5:
		return strings.NewReplacer("s", "\u017f", "S", "\u017f", "k", "\u212a").Replace(s)
	case 6:
		return s + s
	}
	if len(s) == 0 {
		return " "
	}
	i := r.Intn(len(s))
	c := s[i]
	switch {
	case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		c ^= 32
	case c >= '0' && c <= '9':
		if r.Intn(4) == 0 {
			return s[:i] + string(rune(0x660+int(c-'0'))) + s[i+1:]
		}
		return s[:i] + s[i+1:]
	case r.Intn(2) == 0:
		return s[:i] + s[i+1:]
	default:
		c = "-./ ,:\n"[r.Intn(7)]
	}
	return s[:i] + string([]byte{c}) + s[i+1:]
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func genArgs(r *rand.Rand, kinds []string, langs []*syntax.Regexp, hints []paramHint) []string {
	g := &gen{r: r}
	if k := r.Intn(12); k < 2 {
		g.extreme = k + 1
	}
	for i := 0; i < 1+r.Intn(2); i++ {
		g.years = append(g.years, g.someYear())
		g.ints = append(g.ints, r.Int63n(700000000000)-377000000000)
	}
	// many parameters are the parts of a text
	n := 0
	for _, k := range kinds {
		if k == "string" {
			n++
		}
	}
	parts := n > 3 || n > 1 && r.Intn(3) == 0
	var a []string
	for i, k := range kinds {
		switch k {
		case "string":
			s := ""
			if langs[i] != nil && r.Intn(16) > 0 {
				s = g.member(langs[i])
			} else if parts {
				s = pick(r, "-", "+", "", "-", "+", g.year(), strings.TrimPrefix(g.year(), "-"), g.month(), g.day(), "03", "30", "00", "12", "Z", "E", "X", "XX", "?", "~", "%", fmt.Sprintf("%02d", r.Intn(60)))
			} else {
				if s = g.edtf(); len(repoTexts) > 0 && r.Intn(10) == 0 {
					s = repoTexts[r.Intn(len(repoTexts))]
				}
				if r.Intn(8) == 0 {
					s = g.disguise(s)
				}
			}
			p := make([]string, len(s))
			for j := range s {
				p[j] = strconv.Itoa(int(s[j]))
			}
			a = append(a, "["+strings.Join(p, ",")+"]")
		case "bool":
			a = append(a, fmt.Sprint(r.Intn(2) == 0))
		case "int", "int64", "uint32", "time.Month":
			var v int64
			if h, ok := g.hinted(hints[i]); ok && r.Intn(16) > 0 {
				a = append(a, strconv.FormatInt(h, 10))
				continue
			}
			switch r.Intn(6) {
			case 5:
				// any width, the extremes among them
				v = int64(r.Uint64() >> r.Intn(64))
				switch r.Intn(4) {
				case 0:
					v = -v
				case 1:
					v = int64(1)<<r.Intn(64) + int64(r.Intn(3)-1)
				}
			case 0:
				v = int64(r.Intn(16))
			case 1:
				v = int64(r.Intn(20000) - 10000)
			case 2:
				v = int64(1) << r.Intn(12)
			default:
				v = g.ints[r.Intn(len(g.ints))] + int64(r.Intn(5)-2)
			}
			if k == "time.Month" || k == "uint32" && r.Intn(8) > 0 {
				v &= 4095
			} else if k == "uint32" {
				v &= 1<<32 - 1
			}
			a = append(a, strconv.FormatInt(v, 10))
		default:
			if strings.HasPrefix(k, "*") {
				a = append(a, "null")
			} else {
				a = append(a, "{}")
			}
		}
	}
	return a
}

func (g *gen) someYear() string {
	y := ""
	if g.r.Intn(3) == 0 {
		y = fmt.Sprintf("%04d", g.r.Intn(10000))
	} else {
		y = pick(g.r, "0000", "0001", "0004", "0044", "0100", "0400", "0999", "1000", "1582", "1600", "1700", "1900", "1969", "1970", "1984", "1985", "1999", "2000", "2003", "2004", "2100", "9998", "9999")
	}
	if g.r.Intn(5) == 0 {
		y = "-" + y
	}
	return y
}

func (g *gen) year() string {
	if g.r.Intn(4) > 0 {
		return g.years[g.r.Intn(len(g.years))]
	}
	return g.someYear()
}

func (g *gen) month() string {
	return pick(g.r, "01", "02", "02", "03", "04", "06", "09", "10", "11", "12", "12")
}

func (g *gen) day() string {
	if g.r.Intn(2) == 0 {
		return fmt.Sprintf("%02d", 1+g.r.Intn(31))
	}
	return pick(g.r, "01", "28", "29", "30", "31", "10", "20", "00")
}

func (g *gen) date() string {
	switch g.r.Intn(3) {
	case 0:
		return g.year()
	case 1:
		return g.year() + "-" + g.month()
	}
	return g.year() + "-" + g.month() + "-" + g.day()
}

// xs replaces digits by X.
func (g *gen) xs(s string) string {
	b := []byte(s)
	switch g.r.Intn(4) {
	case 0: // from the right
		for i, n := len(b)-1, 1+g.r.Intn(4); i >= 0 && n > 0; i-- {
			if b[i] != '-' {
				b[i] = 'X'
				n--
			}
		}
	case 1:
	default:
		for k := 1 + g.r.Intn(3); k > 0; k-- {
			if i := g.r.Intn(len(b)); b[i] >= '0' && b[i] <= '9' {
				b[i] = 'X'
			}
		}
	}
	return string(b)
}

func (g *gen) qual() string { return pick(g.r, "?", "~", "%", "") }

// qualified is a date with qualifiers on either side of its components.
func (g *gen) qualified() string {
	ps := strings.Split(strings.TrimPrefix(g.date(), "-"), "-")
	for i := range ps {
		switch g.r.Intn(4) {
		case 0:
			ps[i] = g.qual() + ps[i]
		case 1:
			ps[i] += g.qual()
		case 2:
			if g.r.Intn(3) == 0 {
				ps[i] = g.xs(ps[i])
			}
		}
	}
	return strings.Join(ps, "-")
}

func (g *gen) end() string {
	switch g.r.Intn(6) {
	case 0:
		return ".."
	case 1:
		return ""
	case 2:
		return g.qualified()
	case 3:
		return g.xs(g.date())
	}
	return g.date()
}

func (g *gen) edtf() string {
	r := g.r
	switch r.Intn(18) {
	case 0, 1, 2, 3:
		return g.date()
	case 4:
		t := g.year() + "-" + g.month() + "-" + g.day() + fmt.Sprintf("T%02d:%02d:%02d", r.Intn(25), r.Intn(61), r.Intn(61))
		switch r.Intn(4) {
		case 0:
			return t
		case 1:
			return t + "Z"
		case 2:
			return t + pick(r, "+", "-") + fmt.Sprintf("%02d", r.Intn(25))
		}
		return t + pick(r, "+", "-") + fmt.Sprintf("%02d:%02d", r.Intn(25), r.Intn(61))
	case 5, 6, 7:
		return g.end() + "/" + g.end()
	case 8:
		return g.year() + "-" + strconv.Itoa(20+r.Intn(23))
	case 9:
		n := pick(r, "spring", "summer", "fall", "winter")
		switch r.Intn(3) {
		case 0:
			n = strings.ToUpper(n)
		case 1:
			i := r.Intn(len(n))
			n = n[:i] + strings.ToUpper(n[i:i+1]) + n[i+1:]
		}
		return n + pick(r, ",", ", ", " ,", ",  ") + strings.TrimPrefix(g.year(), "-")
	case 10:
		return g.qualified()
	case 11, 12:
		return g.xs(g.date())
	case 13:
		return "Y" + pick(r, "", "-") + strconv.Itoa(r.Intn(int(pow10(1+r.Intn(6)).Int64())))
	case 14:
		return "Y" + pick(r, "", "-") + strconv.Itoa(r.Intn(int(pow10(r.Intn(5)).Int64()))) + "E" + strconv.Itoa(r.Intn(5))
	case 15:
		return pick(r, g.year(), "Y"+g.year(), "Y"+strconv.Itoa(r.Intn(100))+"E"+strconv.Itoa(r.Intn(3))) + "S" + strconv.Itoa(r.Intn(6))
	case 16:
		n := 1 + r.Intn(3)
		var ms []string
		for i := 0; i < n; i++ {
			m := g.date()
			if r.Intn(3) == 0 {
				m += ".." + g.date()
			}
			ms = append(ms, m)
		}
		s := pick(r, "", "", "..") + strings.Join(ms, ",") + pick(r, "", "", "..")
		if r.Intn(2) == 0 {
			return "[" + s + "]"
		}
		return "{" + s + "}"
	}
	return pick(r, "", "..", "open", "uuuu", "/", "../..", "1985", "true", "null", "\"1985\"", "12345", "-1")
}
