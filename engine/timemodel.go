package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Model of package time: instants as days and seconds in the proleptic
// Gregorian calendar. The calendar itself (days0) is an uninterpreted function
// with the lemmas of solver.go.

const (
	unixDays    = 719162 // days from 0001-01-01 to 1970-01-01
	absToUnix   = 62135596800
	secsPerDay  = 86400
	hourNanos   = int64(3600e9)
	minuteNanos = int64(60e9)
)

var bigDay = big.NewInt(secsPerDay)

func (x *Ex) unixTerm(t TimeV) *Term {
	c := x.c
	u := c.Add(c.Scale(c.Sub(t.days, c.Int(unixDays)), bigDay), t.sec)
	return x.wrap(u, types.Typ[types.Int64])
}

// daysOf is the day number of a civil date whose day may be any integer.
func (x *Ex) daysOf(y, m, d *Term) *Term {
	return x.c.Add(x.c.Days0(y, m), x.c.Sub(d, x.c.Int(1)))
}

// normMonth brings the month into 1..12.
func (x *Ex) normMonth(st *State, y, m *Term) (*Term, *Term) {
	c := x.c
	if !m.iv.loInf && !m.iv.hiInf && m.iv.lo >= 1 && m.iv.hi <= 12 {
		return y, m
	}
	if x.decide(st, c.And(c.Ge(m, c.Int(1)), c.Le(m, c.Int(12)))) {
		return y, m
	}
	m0 := c.Sub(m, c.Int(1))
	return c.Add(y, c.FDiv(m0, big.NewInt(12))), c.Add(c.FMod(m0, big.NewInt(12)), c.Int(1))
}

// civilDate normalizes a date the way time.Date does and returns its civil
// fields when they can be told, and its day number.
func (x *Ex) civilDate(st *State, y, m, d *Term) (cy, cm, cd, days *Term) {
	c := x.c
	y, m = x.normMonth(st, y, m)
	for n := 0; n < 3; n++ {
		if x.decide(st, c.Lt(d, c.Int(1))) {
			if !x.decide(st, c.Ge(d, c.Int(-26))) {
				return nil, nil, nil, x.daysOf(y, m, d)
			}
			y, m = x.normMonth(st, y, c.Sub(m, c.Int(1)))
			d = c.Add(d, c.DaysIn(y, m))
			continue
		}
		dim := c.DaysIn(y, m)
		if x.decide(st, c.Le(d, dim)) {
			return y, m, d, x.daysOf(y, m, d)
		}
		if !x.decide(st, c.Le(d, c.Int(59))) {
			return nil, nil, nil, x.daysOf(y, m, d)
		}
		d = c.Sub(d, dim)
		y, m = x.normMonth(st, y, c.Add(m, c.Int(1)))
	}
	return nil, nil, nil, x.daysOf(y, m, d)
}

// inZone makes the instant whose wall clock in the zone shows the given day and second.
func (x *Ex) inZone(st *State, cy, cm, cd, ldays, lsec, ns *Term, z ZoneV) TimeV {
	c := x.c
	if z.kind == 2 {
		z.off = c.Var(fmt.Sprintf("localoff!%d!%d", ldays.id, lsec.id), SInt, ival{lo: -14 * 3600, hi: 14 * 3600})
	}
	t := TimeV{ns: ns, zone: z, y: cy, mo: cm, d: cd, lsec: lsec}
	if z.kind == 0 || z.off.isConst() && z.off.c.Sign() == 0 {
		t.days, t.sec = ldays, lsec
		return t
	}
	s := c.Sub(lsec, z.off)
	t.days = c.Add(ldays, c.FDiv(s, bigDay))
	t.sec = c.FMod(s, bigDay)
	return t
}

func (x *Ex) timeDate(st *State, y, m, d, h, mi, s, ns *Term, z ZoneV) TimeV {
	c := x.c
	bil := big.NewInt(1000000000)
	tot := c.Add(c.Add(c.Scale(h, big.NewInt(3600)), c.Scale(mi, big.NewInt(60))), c.Add(s, c.FDiv(ns, bil)))
	ns = c.FMod(ns, bil)
	if tot.iv.loInf || tot.iv.hiInf || tot.iv.lo < 0 || tot.iv.hi >= secsPerDay {
		if !x.decide(st, c.And(c.Ge(tot, c.Int(0)), c.Lt(tot, c.Int(secsPerDay)))) {
			d = c.Add(d, c.FDiv(tot, bigDay))
			tot = c.FMod(tot, bigDay)
		}
	}
	cy, cm, cd, days := x.civilDate(st, y, m, d)
	return x.inZone(st, cy, cm, cd, days, tot, ns, z)
}

// withDays derives the civil date of a day number.
func (x *Ex) freshCivil(st *State, days *Term) (y, m, d *Term) {
	c := x.c
	if v, ok := days.int64(); ok {
		yy, mm, dd := civilConst(v)
		return c.Int(yy), c.Int(mm), c.Int(dd)
	}
	y = c.Var(fmt.Sprintf("cy!%d", days.id), SInt, ival{lo: -400000000, hi: 400000000})
	m = c.Var(fmt.Sprintf("cm!%d", days.id), SInt, ival{lo: 1, hi: 12})
	d = c.Var(fmt.Sprintf("cd!%d", days.id), SInt, ival{lo: 1, hi: 31})
	x.define(st, c.Eq(x.daysOf(y, m, d), days))
	x.define(st, c.Le(d, c.DaysIn(y, m)))
	return
}

func civilConst(days int64) (y, m, d int64) {
	y = days/366 + 1
	if days < 0 {
		y = days/365 - 2
	}
	for days0Const(y+1, 1) <= days {
		y++
	}
	for days0Const(y, 1) > days {
		y--
	}
	m = 1
	for m < 12 && days0Const(y, m+1) <= days {
		m++
	}
	return y, m, days - days0Const(y, m) + 1
}

// civil completes the civil fields of t in its zone.
func (x *Ex) civil(st *State, t TimeV) TimeV {
	c := x.c
	if t.lsec == nil || t.y == nil {
		ldays := t.days
		t.lsec = t.sec
		if t.zone.kind == 2 && t.zone.off == nil {
			t.zone.off = c.Var(fmt.Sprintf("localat!%d!%d", t.days.id, t.sec.id), SInt, ival{lo: -14 * 3600, hi: 14 * 3600})
		}
		if t.zone.kind != 0 {
			s := c.Add(t.sec, t.zone.off)
			ldays = c.Add(t.days, c.FDiv(s, bigDay))
			t.lsec = c.FMod(s, bigDay)
		}
		t.y, t.mo, t.d = x.freshCivil(st, ldays)
	}
	return t
}

func (x *Ex) timeUTC(st *State, t TimeV) TimeV {
	c := x.c
	z := ZoneV{0, c.Int(0)}
	if t.zone.kind == 0 {
		return t
	}
	r := TimeV{days: t.days, sec: t.sec, ns: t.ns, zone: z}
	if t.y != nil && t.zone.off != nil {
		delta := c.FDiv(c.Sub(t.lsec, t.zone.off), bigDay)
		if !delta.iv.loInf && !delta.iv.hiInf && delta.iv.lo >= -2 && delta.iv.hi <= 2 {
			for k := delta.iv.lo; k < delta.iv.hi; k++ {
				if x.decide(st, c.Eq(delta, c.Int(k))) {
					delta = c.Int(k)
					break
				}
			}
			if !delta.isConst() {
				delta = c.Int(delta.iv.hi)
			}
			y, m, d, days := x.civilDate(st, t.y, t.mo, c.Add(t.d, delta))
			if y != nil {
				r.y, r.mo, r.d = y, m, d
				r.days = days
				r.sec = c.Sub(c.Sub(t.lsec, t.zone.off), c.Scale(delta, bigDay))
				r.lsec = r.sec
			}
		}
	}
	return r
}

func (x *Ex) addDate(st *State, t TimeV, dy, dm, dd *Term) TimeV {
	c := x.c
	t = x.civil(st, t)
	y, m, d := c.Add(t.y, dy), c.Add(t.mo, dm), c.Add(t.d, dd)
	cy, cm, cd, days := x.civilDate(st, y, m, d)
	return x.inZone(st, cy, cm, cd, days, t.lsec, t.ns, t.zone)
}

func (x *Ex) timeAdd(t TimeV, dur *Term) TimeV {
	c := x.c
	bil := big.NewInt(1000000000)
	n := c.Add(t.ns, dur)
	s := c.Add(t.sec, c.FDiv(n, bil))
	z := t.zone
	if z.kind == 2 {
		z.off = nil
	}
	return TimeV{days: c.Add(t.days, c.FDiv(s, bigDay)), sec: c.FMod(s, bigDay), ns: c.FMod(n, bil), zone: z}
}

// timeTrunc is Truncate and Round for durations that divide the day: both count
// from the zero time, in UTC, and keep the zone.
func (x *Ex) timeTrunc(t TimeV, dur *Term, round bool) TimeV {
	c := x.c
	d, ok := dur.int64()
	if !ok || d > 0 && 86400000000000%d != 0 {
		unsup("Truncate or Round to this duration")
	}
	if d <= 0 {
		return t
	}
	bil := big.NewInt(1000000000)
	n := c.FMod(c.Add(c.Scale(t.sec, bil), t.ns), big.NewInt(d))
	if d%1000000000 == 0 {
		n = c.Add(c.Scale(c.FMod(t.sec, big.NewInt(d/1000000000)), bil), t.ns)
	}
	by := c.Sub(c.Int(0), n)
	if round {
		by = c.Ite(c.Lt(c.Add(n, n), c.Int(d)), by, c.Sub(c.Int(d), n))
	}
	return x.timeAdd(t, by)
}

func timeOf(v Val) TimeV {
	t, ok := v.(TimeV)
	if !ok {
		unsup("time.Time is %T", v)
	}
	return t
}

// loc makes the zone of a *time.Location.
func (x *Ex) loc(v Val) ZoneV {
	switch l := v.(type) {
	case Loc:
		return ZoneV{l.kind, x.c.Int(0)}
	case FixedLoc:
		return ZoneV{1, l.off}
	case Ptr:
		if l.obj == 0 {
			panic(goPanic{"time: missing Location", nil})
		}
	}
	unsup("location %T", v)
	return ZoneV{}
}

type FixedLoc struct{ off *Term }

// layout elements
func layoutChunks(l string) []string {
	std := []string{"2006", "-07:00", "-07", "-0700", "Z07:00", "January", "Monday", "Jan", "Mon", "MST", "PM", "pm", "002", "01", "02", "03", "04", "05", "06", "15"}
	var out []string
	litr := ""
	flush := func() {
		if litr != "" {
			out = append(out, "="+litr)
			litr = ""
		}
	}
	for len(l) > 0 {
		hit := ""
		for _, s := range std {
			if strings.HasPrefix(l, s) && len(s) > len(hit) {
				hit = s
			}
		}
		if strings.HasPrefix(l, "Z07") && hit == "" {
			unsup("layout %q", l)
		}
		if hit == "" && (l[0] == '_' || (l[0] >= '1' && l[0] <= '6')) {
			unsup("layout %q", l)
		}
		if (l[0] == '.' || l[0] == ',') && len(l) > 1 && (l[1] == '0' || l[1] == '9') {
			unsup("layout %q", l)
		}
		if hit != "" {
			if strings.HasPrefix(l, "-07:00:00") || strings.HasPrefix(l, "-070000") || strings.HasPrefix(l, "Z07:00:00") {
				unsup("layout %q", l)
			}
			flush()
			out = append(out, hit)
			l = l[len(hit):]
			continue
		}
		litr += l[:1]
		l = l[1:]
	}
	flush()
	return out
}

func (x *Ex) parseErr(st *State, layout string, v Str, what string) Val {
	t := x.w.typ("time", "ParseError")
	return Tuple{x.c.zeroTime(), Iface{t: types.NewPointer(t), v: Ptr{obj: x.newObj(st, Struct{[]Val{lit(layout), v, Str{}, Str{}, lit(what)}})}}}
}

// takeDigits reads n decimal digits from the front of s.
func (x *Ex) takeDigits(st *State, s Str, n int) (v *Term, rest Str, ok bool) {
	c := x.c
	s = st.norm(s)
	if len(s.a) > 0 && s.a[0].kind == AFmt && s.a[0].width == n {
		t := s.a[0].t
		if x.decide(st, c.And(c.Ge(t, c.Int(0)), c.Lt(t, c.Big(pow10(n))))) {
			return t, Str{s.a[1:]}, true
		}
	}
	v = c.Int(0)
	for i := 0; i < n; i++ {
		ch, r, ok := x.splitFirst(st, s)
		if !ok || !x.decide(st, x.inSet(ch, digitSet)) {
			return nil, s, false
		}
		if ch.iv.loInf || ch.iv.hiInf || ch.iv.lo < '0' || ch.iv.hi > '9' {
			d := c.Var(fmt.Sprintf("dig%d", ch.id), SInt, ival{lo: '0', hi: '9'})
			x.define(st, c.Eq(d, ch))
			ch = d
		}
		v = c.Add(v, c.Scale(c.Sub(ch, c.Int('0')), pow10(n-1-i)))
		s = st.norm(r)
	}
	return v, s, true
}

func (x *Ex) takeLit(st *State, s Str, l string) (Str, bool) {
	s = st.norm(s)
	return x.hasPrefix(st, s, l)
}

func (x *Ex) timeParse(st *State, layout string, v0 Str, local ZoneV) Val {
	c := x.c
	v := st.norm(v0)
	y, mo, d := c.Int(0), c.Int(0), c.Int(0)
	hasMo, hasD := false, false
	h, mi, s := c.Int(0), c.Int(0), c.Int(0)
	var off *Term
	z := false
	fail := func(what string) Val { return x.parseErr(st, layout, v0, what) }
	between := func(t *Term, lo, hi int64) bool {
		return x.decide(st, c.And(c.Ge(t, c.Int(lo)), c.Le(t, c.Int(hi))))
	}
	rangeErr := ""
	for _, ch := range layoutChunks(layout) {
		var ok bool
		v = st.norm(v)
		switch ch {
		case "2006":
			y, v, ok = x.takeDigits(st, v, 4)
		case "01":
			mo, v, ok = x.takeDigits(st, v, 2)
			hasMo = true
			if ok && !between(mo, 1, 12) && rangeErr == "" {
				rangeErr = "month out of range"
			}
		case "02":
			d, v, ok = x.takeDigits(st, v, 2)
			hasD = true
		case "15":
			if h, v, ok = x.takeDigits(st, v, 2); !ok {
				// a single digit is accepted too
				if h, v, ok = x.takeDigits(st, v, 1); ok {
					v = st.norm(v)
				}
			}
			if ok && !between(h, 0, 23) && rangeErr == "" {
				rangeErr = "hour out of range"
			}
		case "04":
			mi, v, ok = x.takeDigits(st, v, 2)
			if ok && !between(mi, 0, 59) && rangeErr == "" {
				rangeErr = "minute out of range"
			}
		case "05":
			s, v, ok = x.takeDigits(st, v, 2)
			if ok && !between(s, 0, 59) && rangeErr == "" {
				rangeErr = "second out of range"
			}
			if ok {
				// fractional seconds are accepted although the layout has none
				v = st.norm(v)
				if fc, r, has := x.splitFirst(st, v); has && x.decide(st, x.inSet(fc, RSet{{',', ','}, {'.', '.'}})) {
					if dc, _, has := x.splitFirst(st, st.norm(r)); has && x.decide(st, x.inSet(dc, digitSet)) {
						unsup("fractional seconds")
					}
				}
			}
		case "-07:00", "-07", "Z07:00", "-0700":
			ok = true
			v = st.norm(v)
			if ch == "Z07:00" {
				if r, is := x.hasPrefix(st, v, "Z"); is {
					v, z = r, true
					break
				}
				v = st.norm(v)
			}
			sg, r, has := x.splitFirst(st, v)
			if !has {
				return fail("")
			}
			var hh, mm *Term
			mm = c.Int(0)
			if hh, r, ok = x.takeDigits(st, r, 2); !ok {
				return fail("")
			}
			if ch == "-07:00" || ch == "Z07:00" {
				if r, ok = x.hasPrefix(st, st.norm(r), ":"); !ok {
					return fail("")
				}
			}
			if ch != "-07" {
				if mm, r, ok = x.takeDigits(st, r, 2); !ok {
					return fail("")
				}
			}
			if !between(hh, 0, 24) && rangeErr == "" {
				rangeErr = "time zone offset hour out of range"
			}
			if !between(mm, 0, 60) && rangeErr == "" {
				rangeErr = "time zone offset minute out of range"
			}
			off = c.Add(c.Scale(hh, big.NewInt(3600)), c.Scale(mm, big.NewInt(60)))
			if x.decide(st, x.inSet(sg, RSet{{'-', '-'}})) {
				off = c.Neg(off)
			} else if !x.decide(st, x.inSet(sg, RSet{{'+', '+'}})) {
				return fail("")
			}
			v = r
		default:
			if ch[0] != '=' {
				unsup("layout element %q", ch)
			}
			lt := ch[1:]
			if strings.Contains(lt, " ") {
				unsup("space in a layout")
			}
			v, ok = x.takeLit(st, v, lt)
		}
		if !ok {
			return fail("")
		}
		if rangeErr != "" {
			return fail(": " + rangeErr)
		}
	}
	v = st.norm(v)
	if _, _, more := x.splitFirst(st, v); more {
		return fail(": extra text")
	}
	if !hasMo {
		mo = c.Int(1)
	}
	if !hasD {
		d = c.Int(1)
	}
	if !x.decide(st, c.And(c.Ge(d, c.Int(1)), c.Le(d, c.DaysIn(y, mo)))) {
		return fail(": day out of range")
	}
	sec := c.Add(c.Add(c.Scale(h, big.NewInt(3600)), c.Scale(mi, big.NewInt(60))), s)
	zone := local
	if off != nil {
		if local.kind == 0 && x.decide(st, c.Eq(off, c.Int(0))) {
			zone = ZoneV{0, c.Int(0)}
		} else {
			zone = ZoneV{1, off}
			if local.kind == 2 && x.choose(st, 2) == 1 {
				// the machine's zone happens to have this offset
				zone = ZoneV{2, off}
				r := x.inZone(st, y, mo, d, x.daysOf(y, mo, d), sec, c.Int(0), ZoneV{1, off})
				r.zone = zone
				return x.okErr(r)
			}
		}
	} else if z {
		zone = ZoneV{0, c.Int(0)}
	}
	return x.okErr(x.inZone(st, y, mo, d, x.daysOf(y, mo, d), sec, c.Int(0), zone))
}

func (x *Ex) timeFormat(st *State, t TimeV, layout string) Str {
	c := x.c
	t = x.civil(st, t)
	h := c.FDiv(t.lsec, big.NewInt(3600))
	mi := c.FDiv(c.FMod(t.lsec, big.NewInt(3600)), big.NewInt(60))
	s := c.FMod(t.lsec, big.NewInt(60))
	var parts []Str
	for _, ch := range layoutChunks(layout) {
		switch ch {
		case "2006":
			if x.decide(st, c.Ge(t.y, c.Int(0))) {
				parts = append(parts, fmtInt(t.y, 4, "fmt"))
			} else {
				parts = append(parts, lit("-"), fmtInt(c.Neg(t.y), 4, "fmt"))
			}
		case "01":
			parts = append(parts, fmtInt(t.mo, 2, "fmt"))
		case "02":
			parts = append(parts, fmtInt(t.d, 2, "fmt"))
		case "15":
			parts = append(parts, fmtInt(h, 2, "fmt"))
		case "04":
			parts = append(parts, fmtInt(mi, 2, "fmt"))
		case "05":
			parts = append(parts, fmtInt(s, 2, "fmt"))
		case "Z07:00", "-07:00":
			if t.zone.kind == 0 || x.decide(st, c.Eq(t.zone.off, c.Int(0))) {
				if ch[0] == 'Z' {
					parts = append(parts, lit("Z"))
				} else {
					parts = append(parts, lit("+00:00"))
				}
				break
			}
			o := t.zone.off
			sg := "+"
			if x.decide(st, c.Lt(o, c.Int(0))) {
				sg = "-"
				o = c.Neg(o)
			}
			parts = append(parts, lit(sg), fmtInt(c.FDiv(o, big.NewInt(3600)), 2, "fmt"), lit(":"), fmtInt(c.FDiv(c.FMod(o, big.NewInt(3600)), big.NewInt(60)), 2, "fmt"))
		default:
			if ch[0] != '=' {
				unsup("layout element %q", ch)
			}
			parts = append(parts, lit(ch[1:]))
		}
	}
	return concatStr(parts...)
}

// instCmp compares two instants the way package time does: on 64-bit seconds
// since year 1.
func (x *Ex) instCmp(a, b TimeV) (lt, eq *Term) {
	c := x.c
	f := func(t TimeV) *Term {
		return x.wrap(c.Add(c.Scale(t.days, bigDay), t.sec), types.Typ[types.Int64])
	}
	p, q := f(a), f(b)
	return c.Or(c.Lt(p, q), c.And(c.Eq(p, q), c.Lt(a.ns, b.ns))), c.And(c.Eq(p, q), c.Eq(a.ns, b.ns))
}

func timeModels() {
	civ := func(f func(x *Ex, st *State, t TimeV) Val) modelFn {
		return func(x *Ex, st *State, a []Val) Val { return f(x, st, x.civil(st, timeOf(a[0]))) }
	}
	for n, m := range map[string]modelFn{
		"time.Parse": func(x *Ex, st *State, a []Val) Val {
			return x.timeParse(st, needLit(st, a[0], "layout"), str(st, a[1]), ZoneV{0, x.c.Int(0)}.orLocal(needLit(st, a[0], "layout")))
		},
		"time.ParseInLocation": func(x *Ex, st *State, a []Val) Val {
			return x.timeParse(st, needLit(st, a[0], "layout"), str(st, a[1]), x.loc(a[2]))
		},
		"time.Date": func(x *Ex, st *State, a []Val) Val {
			return x.timeDate(st, trm(a[0]), trm(a[1]), trm(a[2]), trm(a[3]), trm(a[4]), trm(a[5]), trm(a[6]), x.loc(a[7]))
		},
		"time.FixedZone": func(x *Ex, st *State, a []Val) Val { return FixedLoc{trm(a[1])} },
		"time.Unix": func(x *Ex, st *State, a []Val) Val {
			c := x.c
			bil := big.NewInt(1000000000)
			u := c.Add(trm(a[0]), c.FDiv(trm(a[1]), bil))
			return TimeV{days: c.Add(c.FDiv(u, bigDay), c.Int(unixDays)), sec: c.FMod(u, bigDay), ns: c.FMod(trm(a[1]), bil), zone: ZoneV{kind: 2}}
		},
		"(time.Time).UTC": func(x *Ex, st *State, a []Val) Val { return x.timeUTC(st, timeOf(a[0])) },
		"(time.Time).In": func(x *Ex, st *State, a []Val) Val {
			z := x.loc(a[1])
			t := x.timeUTC(st, timeOf(a[0]))
			if z.kind == 0 {
				return t
			}
			if z.kind == 2 {
				z.off = nil
			}
			return TimeV{days: t.days, sec: t.sec, ns: t.ns, zone: z}
		},
		"(time.Time).Local": func(x *Ex, st *State, a []Val) Val {
			t := timeOf(a[0])
			return TimeV{days: t.days, sec: t.sec, ns: t.ns, zone: ZoneV{kind: 2}}
		},
		"(time.Time).Unix": func(x *Ex, st *State, a []Val) Val { return x.unixTerm(timeOf(a[0])) },
		"(time.Time).UnixMilli": func(x *Ex, st *State, a []Val) Val {
			t := timeOf(a[0])
			v := x.c.Add(x.c.Scale(x.unixTerm(t), big.NewInt(1000)), x.c.FDiv(t.ns, big.NewInt(1000000)))
			return x.wrap(v, types.Typ[types.Int64])
		},
		"(time.Time).UnixNano": func(x *Ex, st *State, a []Val) Val {
			t := timeOf(a[0])
			v := x.c.Add(x.c.Scale(x.unixTerm(t), big.NewInt(1000000000)), t.ns)
			return x.wrap(v, types.Typ[types.Int64])
		},
		"(time.Time).Before": func(x *Ex, st *State, a []Val) Val {
			lt, _ := x.instCmp(timeOf(a[0]), timeOf(a[1]))
			return lt
		},
		"(time.Time).After": func(x *Ex, st *State, a []Val) Val {
			lt, _ := x.instCmp(timeOf(a[1]), timeOf(a[0]))
			return lt
		},
		"(time.Time).Equal": func(x *Ex, st *State, a []Val) Val {
			_, eq := x.instCmp(timeOf(a[0]), timeOf(a[1]))
			return eq
		},
		"(time.Time).Compare": func(x *Ex, st *State, a []Val) Val {
			lt, eq := x.instCmp(timeOf(a[0]), timeOf(a[1]))
			return x.c.Ite(lt, x.c.Int(-1), x.c.Ite(eq, x.c.Int(0), x.c.Int(1)))
		},
		"(time.Time).IsZero": func(x *Ex, st *State, a []Val) Val {
			_, eq := x.instCmp(timeOf(a[0]), x.c.zeroTime())
			return eq
		},
		"(time.Time).AddDate": func(x *Ex, st *State, a []Val) Val {
			return x.addDate(st, timeOf(a[0]), trm(a[1]), trm(a[2]), trm(a[3]))
		},
		"(time.Time).Add":      func(x *Ex, st *State, a []Val) Val { return x.timeAdd(timeOf(a[0]), trm(a[1])) },
		"(time.Time).Truncate": func(x *Ex, st *State, a []Val) Val { return x.timeTrunc(timeOf(a[0]), trm(a[1]), false) },
		"(time.Time).Round":    func(x *Ex, st *State, a []Val) Val { return x.timeTrunc(timeOf(a[0]), trm(a[1]), true) },
		"(time.Time).Sub": func(x *Ex, st *State, a []Val) Val {
			c := x.c
			p, q := timeOf(a[0]), timeOf(a[1])
			s := c.Sub(c.Add(c.Scale(p.days, bigDay), p.sec), c.Add(c.Scale(q.days, bigDay), q.sec))
			return x.wrapSat(c.Add(c.Scale(s, big.NewInt(1000000000)), c.Sub(p.ns, q.ns)))
		},
		"(time.Time).Format": func(x *Ex, st *State, a []Val) Val {
			return x.timeFormat(st, timeOf(a[0]), needLit(st, a[1], "layout"))
		},
		"(time.Time).Year":  civ(func(x *Ex, st *State, t TimeV) Val { return t.y }),
		"(time.Time).Month": civ(func(x *Ex, st *State, t TimeV) Val { return t.mo }),
		"(time.Time).Day":   civ(func(x *Ex, st *State, t TimeV) Val { return t.d }),
		"(time.Time).Date":  civ(func(x *Ex, st *State, t TimeV) Val { return Tuple{t.y, t.mo, t.d} }),
		"(time.Time).Hour":  civ(func(x *Ex, st *State, t TimeV) Val { return x.c.FDiv(t.lsec, big.NewInt(3600)) }),
		"(time.Time).Minute": civ(func(x *Ex, st *State, t TimeV) Val {
			return x.c.FDiv(x.c.FMod(t.lsec, big.NewInt(3600)), big.NewInt(60))
		}),
		"(time.Time).Second": civ(func(x *Ex, st *State, t TimeV) Val { return x.c.FMod(t.lsec, big.NewInt(60)) }),
		"(time.Time).Clock": civ(func(x *Ex, st *State, t TimeV) Val {
			return Tuple{x.c.FDiv(t.lsec, big.NewInt(3600)), x.c.FDiv(x.c.FMod(t.lsec, big.NewInt(3600)), big.NewInt(60)), x.c.FMod(t.lsec, big.NewInt(60))}
		}),
		"(time.Time).YearDay": civ(func(x *Ex, st *State, t TimeV) Val {
			return x.c.Add(x.c.Sub(x.daysOf(t.y, t.mo, t.d), x.c.Days0(t.y, x.c.Int(1))), x.c.Int(1))
		}),
		"(time.Time).Weekday": civ(func(x *Ex, st *State, t TimeV) Val {
			return x.c.FMod(x.c.Add(x.daysOf(t.y, t.mo, t.d), x.c.Int(1)), big.NewInt(7))
		}),
		"(time.Time).Nanosecond": func(x *Ex, st *State, a []Val) Val { return timeOf(a[0]).ns },
		"(time.Time).Location": func(x *Ex, st *State, a []Val) Val {
			switch t := timeOf(a[0]); t.zone.kind {
			case 0:
				return Loc{0}
			case 1:
				return FixedLoc{t.zone.off}
			}
			return Loc{2}
		},
		"(time.Month).String": func(x *Ex, st *State, a []Val) Val {
			return Str{[]Atom{{kind: AOpq, tag: "monthname", args: []Val{a[0]}}}}
		},
	} {
		models[n] = m
	}
}

// orLocal: time.Parse takes the zone of the machine for explicit offsets, and
// UTC without any.
func (z ZoneV) orLocal(layout string) ZoneV {
	if strings.Contains(layout, "07") {
		z.kind = 2
	}
	return z
}
