package zz_verifspec

import (
	"strings"

	edtf "github.com/sfomuseum/go-edtf"
)

// Exists tells whether a day exists.
func Exists(y, m, d int) bool {
	return m >= 1 && m <= 12 && d >= 1 && d <= MonthLen(y, m)
}

// DayOrRefused: a day that exists is covered, any other one is refused.
func DayOrRefused(r *edtf.EDTFDate, err error, y, m, d int) bool {
	if !Exists(y, m, d) {
		return Refused(r, err)
	}
	return CoversDay(r, err, y, m, d)
}

// MonthOrRefused: a month that exists is covered, any other one is refused.
func MonthOrRefused(r *edtf.EDTFDate, err error, y, m int) bool {
	if m < 1 || m > 12 {
		return Refused(r, err)
	}
	return Covers(r, err, y, m, 1, y, m, MonthLen(y, m))
}

// Timed tells whether all four dates of a result are one instant in UTC.
func Timed(r *edtf.EDTFDate, err error, sec int64) bool {
	return err == nil && r != nil &&
		timed(r.Start.Lower, sec) && timed(r.Start.Upper, sec) && timed(r.End.Lower, sec) && timed(r.End.Upper, sec)
}

func timed(d *edtf.Date, sec int64) bool {
	return IsAt(d, sec) && d.YMD == nil && strings.HasSuffix(d.DateTime, "Z")
}

// TimedOrRefused: a moment that exists is resolved to, any other one refused.
// The shift is in seconds.
func TimedOrRefused(r *edtf.EDTFDate, err error, y, m, d, hh, mm, ss, shift int) bool {
	if !Exists(y, m, d) || hh > 23 || mm > 59 || ss > 59 {
		return Refused(r, err)
	}
	return Timed(r, err, Sec(y, m, d, hh, mm, ss)-int64(shift))
}

// ---- qualifiers

func isU(q string) bool { return q == "?" || q == "%" }
func isA(q string) bool { return q == "~" || q == "%" }

func pick(c bool, p edtf.Precision) edtf.Precision {
	if c {
		return p
	}
	return 0
}

// GroupFlags: qualifiers to the right of the year, the month and the day.
func GroupFlags(r *edtf.EDTFDate, err error, qy, qm, qd string) bool {
	return Flags(r, err, right(isU(qy), isU(qm), isU(qd)), right(isA(qy), isA(qm), isA(qd)))
}

func right(y, m, d bool) edtf.Precision {
	return pick(y || m || d, edtf.YEAR) | pick(m || d, edtf.MONTH) | pick(d, edtf.DAY)
}

// EachFlags: qualifiers to the left of the year, the month and the day.
func EachFlags(r *edtf.EDTFDate, err error, qy, qm, qd string) bool {
	return Flags(r, err, left(isU(qy), isU(qm), isU(qd)), left(isA(qy), isA(qm), isA(qd)))
}

func left(y, m, d bool) edtf.Precision {
	return pick(y, edtf.YEAR) | pick(m, edtf.MONTH) | pick(d, edtf.DAY)
}

// ---- unspecified digits

// Xs tells whether the digits (two or four) contain an X that may not be there:
// in front of another digit (of the last one in a year), or as first digit of a
// year.
func badYear(y string) bool {
	return y[0] == 'X' || y[3] != 'X' && (y[1] == 'X' || y[2] == 'X')
}

func badTwo(s string) bool { return s[0] == 'X' && s[1] != 'X' }

func lo(s string) int { return Num(strings.Replace(s, "X", "0", -1)) }
func hi(s string) int { return Num(strings.Replace(s, "X", "9", -1)) }

// monthsOf are the first and the last month with a pattern; (0,0) for none.
func monthsOf(m string) (int, int) {
	if m == "XX" {
		return 1, 12
	}
	if badTwo(m) {
		return 0, 0
	}
	a, b := lo(m), hi(m)
	if a < 1 {
		a = 1
	}
	if b > 12 {
		b = 12
	}
	if a > b {
		return 0, 0
	}
	return a, b
}

// daysOf are the first and the last day with a pattern in months of lengths l1
// and l2; (0,0) for none.
func daysOf(d string, l1, l2 int) (int, int) {
	if d == "XX" {
		return 1, l2
	}
	if badTwo(d) {
		return 0, 0
	}
	a, b := lo(d), hi(d)
	if a < 1 {
		a = 1
	}
	if d[1] == 'X' && b > l2 {
		b = l2
	}
	if b < 1 || a > l1 || b > l2 || d[1] == 'X' && b/10 != a/10 && d[0] != '0' {
		return 0, 0
	}
	return a, b
}

// UnspecYear is what a year with unspecified digits covers.
func UnspecYear(r *edtf.EDTFDate, err error, y string) bool {
	if badYear(y) {
		return Refused(r, err)
	}
	return Covers(r, err, lo(y), 1, 1, hi(y), 12, 31)
}

// UnspecMonth is what a year and a month with unspecified digits cover.
func UnspecMonth(r *edtf.EDTFDate, err error, y, m string) bool {
	m1, m2 := monthsOf(m)
	if badYear(y) || m1 == 0 {
		return Refused(r, err)
	}
	return Covers(r, err, lo(y), m1, 1, hi(y), m2, MonthLen(hi(y), m2))
}

// UnspecDay is what a date with unspecified digits covers.
func UnspecDay(r *edtf.EDTFDate, err error, y, m, d string) bool {
	if badYear(y) {
		return Refused(r, err)
	}
	m1, m2 := monthsOf(m)
	if m1 == 0 {
		return Refused(r, err)
	}
	y1, y2 := lo(y), hi(y)
	d1, d2 := daysOf(d, MonthLen(y1, m1), MonthLen(y2, m2))
	if d1 == 0 {
		return Refused(r, err)
	}
	if y1 == y2 && m1 == m2 && d1 == d2 {
		return CoversDay(r, err, y1, m1, d1)
	}
	return Covers(r, err, y1, m1, d1, y2, m2, d2)
}

// ---- spans with qualifiers

// Qualified tells whether a span carries the flags of the qualifiers to the left
// (l) and to the right (r) of the year, the month and the day, and otherwise is
// what the date is without them.
func Qualified(sp *edtf.DateSpan, err error, bare *edtf.DateSpan, bareErr error, ly, ry, lm, rm, ld, rd string) bool {
	if bareErr != nil {
		return err != nil && sp == nil
	}
	if err != nil || sp == nil {
		return false
	}
	u := left(isU(ly), isU(lm), isU(ld)) | right(isU(ry), isU(rm), isU(rd))
	a := left(isA(ly), isA(lm), isA(ld)) | right(isA(ry), isA(rm), isA(rd))
	return qualified(sp.Start.Lower, bare.Start.Lower, u, a) && qualified(sp.Start.Upper, bare.Start.Upper, u, a) &&
		qualified(sp.End.Lower, bare.End.Lower, u, a) && qualified(sp.End.Upper, bare.End.Upper, u, a)
}

func qualified(d, o *edtf.Date, u, a edtf.Precision) bool {
	return flags(d, u, a) && flags(o, 0, 0) && d.Timestamp != nil && o.Timestamp != nil && d.YMD != nil && o.YMD != nil &&
		d.Timestamp.Unix() == o.Timestamp.Unix() && d.DateTime == o.DateTime && d.YMD.Equals(o.YMD) && d.Precision == o.Precision
}
