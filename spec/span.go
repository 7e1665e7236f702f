package zz_verifspec

import (
	"time"

	edtf "github.com/sfomuseum/go-edtf"
)

// OpaqueSpan is what resolving one date string gives, as far as the callers
// need to know: an error, or a span whose start and end each lie within one day,
// whose dates carry the same flags, and whose start is not after its end.
func OpaqueSpan(s string, span *edtf.DateSpan, err error) (*edtf.DateSpan, error) {
	if SomeBool("failed", s, func() bool { return err != nil }) {
		return nil, KindErr(SomeInt("kind", s, 1, 6, func() int { return Kind(err) }))
	}
	y1 := SomeInt("y1", s, -9999, 9999, func() int { return span.Start.Lower.YMD.Year })
	m1 := SomeInt("m1", s, 1, 12, func() int { return span.Start.Lower.YMD.Month })
	d1 := SomeInt("d1", s, 1, 31, func() int { return span.Start.Lower.YMD.Day })
	y2 := SomeInt("y2", s, -9999, 9999, func() int { return span.End.Upper.YMD.Year })
	m2 := SomeInt("m2", s, 1, 12, func() int { return span.End.Upper.YMD.Month })
	d2 := SomeInt("d2", s, 1, 31, func() int { return span.End.Upper.YMD.Day })
	Given("first day exists", Holds(func() bool { return d1 <= MonthLen(y1, m1) }))
	Given("last day exists", Holds(func() bool { return d2 <= MonthLen(y2, m2) }))
	Given("not reversed", Holds(func() bool { return y1 < y2 || y1 == y2 && (m1 < m2 || m1 == m2 && d1 <= d2) }))
	single := SomeBool("single", s, func() bool { return *span.Start.Lower.Timestamp == *span.Start.Upper.Timestamp })
	Given("single days only", Holds(func() bool { return !single || y1 == y2 && m1 == m2 && d1 == d2 }))
	u := SomePrec("uncertain", s, func() edtf.Precision { return span.Start.Lower.Uncertain })
	a := SomePrec("approximate", s, func() edtf.Precision { return span.Start.Lower.Approximate })
	p := SomePrec("precision", s, func() edtf.Precision { return span.Start.Lower.Precision })
	return MakeSpan(s, y1, m1, d1, y2, m2, d2, single, u, a, p), nil
}

// MakeSpan is the span from one day to another one.
func MakeSpan(s string, y1, m1, d1, y2, m2, d2 int, single bool, u, a, p edtf.Precision) *edtf.DateSpan {
	t1 := At(y1, m1, d1, 0, 0, 0)
	t2 := At(y1, m1, d1, 23, 59, 59)
	t3 := At(y2, m2, d2, 0, 0, 0)
	t4 := At(y2, m2, d2, 23, 59, 59)
	if single {
		t2 = t1
		t3 = t4
	}
	ymd1 := &edtf.YMD{Year: y1, Month: m1, Day: d1}
	ymd2 := &edtf.YMD{Year: y2, Month: m2, Day: d2}
	mk := func(ymd *edtf.YMD, t time.Time) *edtf.Date {
		d := &edtf.Date{YMD: ymd, Uncertain: u, Approximate: a, Precision: p}
		d.SetTime(&t)
		return d
	}
	return &edtf.DateSpan{
		Start: &edtf.DateRange{EDTF: s, Lower: mk(ymd1, t1), Upper: mk(ymd1, t2)},
		End:   &edtf.DateRange{EDTF: s, Lower: mk(ymd2, t3), Upper: mk(ymd2, t4)},
	}
}

// At is an instant in UTC.
func At(y, m, d, hh, mm, ss int) time.Time {
	return time.Date(y, time.Month(m), d, hh, mm, ss, 0, time.UTC)
}

// KindErr is an error of a kind.
func KindErr(k int) error {
	switch k {
	case 0:
		return nil
	case 1:
		return edtf.NotSet()
	case 2:
		return edtf.NotImplemented("x", "x")
	case 3:
		return edtf.Invalid("x", "x")
	case 4:
		return edtf.Unsupported("x", "x")
	case 5:
		return edtf.Unrecognized("x", "x")
	}
	return errOther
}
