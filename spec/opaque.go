package zz_verifspec

import (
	"time"

	edtf "github.com/sfomuseum/go-edtf"
)

// Shape tells which dates of a result have an instant: 0 all (with the year,
// month and day), 1 all (without these), 2 those of the start only, 3 those of
// the end only, 4 none.
func Shape(r *edtf.EDTFDate) int {
	s, e := r.Start.Lower.Timestamp != nil, r.End.Upper.Timestamp != nil
	switch {
	case s && e && r.Start.Lower.YMD != nil:
		return 0
	case s && e:
		return 1
	case s:
		return 2
	case e:
		return 3
	}
	return 4
}

// OpaqueResult is what parsing a string gives, as far as the callers need to
// know: an error, or a result that echoes the string, has its four dates, and
// has instants on both dates of a side or on none.
func OpaqueResult(s string, r *edtf.EDTFDate, err error) (*edtf.EDTFDate, error) {
	if SomeBool("failed", s, func() bool { return err != nil }) {
		return nil, KindErr(SomeInt("kind", s, 1, 6, func() int { return Kind(err) }))
	}
	Given("not an old notation", s != "open" && s != "uuuu")
	shape := SomeInt("shape", s, 0, 4, func() int { return Shape(r) })
	switch shape {
	case 0:
		return opaqueResult(s, r, true, true, true), nil
	case 1:
		return opaqueResult(s, r, true, true, false), nil
	case 2:
		return opaqueResult(s, r, true, false, true), nil
	case 3:
		return opaqueResult(s, r, false, true, true), nil
	}
	return opaqueResult(s, r, false, false, false), nil
}

func opaqueResult(s string, r *edtf.EDTFDate, start, end, ymd bool) *edtf.EDTFDate {
	return &edtf.EDTFDate{
		Start: &edtf.DateRange{
			EDTF:  SomeString("start edtf", s, func() string { return r.Start.EDTF }),
			Lower: opaqueDate("start lower", s, start, ymd, func() *edtf.Date { return r.Start.Lower }),
			Upper: opaqueDate("start upper", s, start, ymd, func() *edtf.Date { return r.Start.Upper }),
		},
		End: &edtf.DateRange{
			EDTF:  SomeString("end edtf", s, func() string { return r.End.EDTF }),
			Lower: opaqueDate("end lower", s, end, ymd, func() *edtf.Date { return r.End.Lower }),
			Upper: opaqueDate("end upper", s, end, ymd, func() *edtf.Date { return r.End.Upper }),
		},
		EDTF:    s,
		Level:   SomeInt("level", s, -1, 2, func() int { return r.Level }),
		Feature: SomeString("feature", s, func() string { return r.Feature }),
	}
}

func opaqueDate(n, s string, dated, ymd bool, w func() *edtf.Date) *edtf.Date {
	d := &edtf.Date{
		Uncertain:   SomePrec(n+" uncertain", s, func() edtf.Precision { return w().Uncertain }),
		Approximate: SomePrec(n+" approximate", s, func() edtf.Precision { return w().Approximate }),
		Unspecified: SomePrec(n+" unspecified", s, func() edtf.Precision { return w().Unspecified }),
		Precision:   SomePrec(n+" precision", s, func() edtf.Precision { return w().Precision }),
		Inclusivity: SomePrec(n+" inclusivity", s, func() edtf.Precision { return w().Inclusivity }),
		Open:        SomeBool(n+" open", s, func() bool { return w().Open }),
		Unknown:     SomeBool(n+" unknown", s, func() bool { return w().Unknown }),
	}
	if !dated {
		return d
	}
	t := time.Unix(int64(SomeInt(n+" instant", s, -400000000000, 400000000000, func() int { return int(w().Timestamp.Unix()) })), 0).UTC()
	d.Timestamp = edtf.NewTimestampWithTime(&t)
	d.DateTime = SomeString(n+" datetime", s, func() string { return w().DateTime })
	if ymd {
		d.YMD = &edtf.YMD{
			Year:  SomeInt(n+" year", s, -9999, 9999, func() int { return w().YMD.Year }),
			Month: SomeInt(n+" month", s, 1, 12, func() int { return w().YMD.Month }),
			Day:   SomeInt(n+" day", s, 1, 31, func() int { return w().YMD.Day }),
		}
	}
	return d
}
