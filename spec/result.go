package zz_verifspec

import (
	"strconv"
	"time"

	edtf "github.com/sfomuseum/go-edtf"
)

// Num is the number that a string of digits denotes.
func Num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return 0
	}
	return n
}

// YearOf is the year that a sign and digits denote.
func YearOf(sign string, y string) int {
	if sign == "-" {
		return -Num(y)
	}
	return Num(y)
}

// Complete tells whether exactly one of a result and an error was returned, and
// whether the result has its four dates.
func Complete(r *edtf.EDTFDate, err error) bool {
	if err != nil {
		return r == nil
	}
	return r != nil && r.Start != nil && r.End != nil && r.Start.Lower != nil && r.Start.Upper != nil && r.End.Lower != nil && r.End.Upper != nil
}

// Sec is the second of a moment since 1970.
func Sec(y, m, d, hh, mm, ss int) int64 { return At(y, m, d, hh, mm, ss).Unix() }

// IsAt tells whether a date denotes an instant.
func IsAt(d *edtf.Date, sec int64) bool {
	return d.Timestamp != nil && d.Timestamp.Unix() == sec
}

// Covers tells whether a result covers whole days from the first one to the
// last one: the start covers the first and the end the last day.
func Covers(r *edtf.EDTFDate, err error, y1, m1, d1, y2, m2, d2 int) bool {
	return err == nil && r != nil &&
		IsAt(r.Start.Lower, Sec(y1, m1, d1, 0, 0, 0)) &&
		IsAt(r.Start.Upper, Sec(y1, m1, d1, 23, 59, 59)) &&
		IsAt(r.End.Lower, Sec(y2, m2, d2, 0, 0, 0)) &&
		IsAt(r.End.Upper, Sec(y2, m2, d2, 23, 59, 59))
}

// CoversDay tells whether a result covers one single day.
func CoversDay(r *edtf.EDTFDate, err error, y, m, d int) bool {
	return err == nil && r != nil &&
		IsAt(r.Start.Lower, Sec(y, m, d, 0, 0, 0)) &&
		IsAt(r.Start.Upper, Sec(y, m, d, 0, 0, 0)) &&
		IsAt(r.End.Lower, Sec(y, m, d, 23, 59, 59)) &&
		IsAt(r.End.Upper, Sec(y, m, d, 23, 59, 59))
}

// Bounds tells whether a result goes from the first second of a day to the last
// second of another one.
func Bounds(r *edtf.EDTFDate, err error, y1, m1, d1, y2, m2, d2 int) bool {
	return err == nil && r != nil &&
		IsAt(r.Start.Lower, Sec(y1, m1, d1, 0, 0, 0)) &&
		IsAt(r.End.Upper, Sec(y2, m2, d2, 23, 59, 59))
}

// Refused tells whether there is an error and no result.
func Refused(r *edtf.EDTFDate, err error) bool { return err != nil && r == nil }

// Flags tells whether all four dates carry exactly these flags.
func Flags(r *edtf.EDTFDate, err error, uncertain, approximate edtf.Precision) bool {
	return err == nil && r != nil &&
		flags(r.Start.Lower, uncertain, approximate) && flags(r.Start.Upper, uncertain, approximate) &&
		flags(r.End.Lower, uncertain, approximate) && flags(r.End.Upper, uncertain, approximate)
}

func flags(d *edtf.Date, u, a edtf.Precision) bool {
	return d.Uncertain == u && d.Approximate == a && d.Unspecified == 0
}

// Prec tells whether all four dates carry exactly this precision.
func Prec(r *edtf.EDTFDate, err error, p edtf.Precision) bool {
	return err == nil && r != nil && r.Start.Lower.Precision == p && r.Start.Upper.Precision == p &&
		r.End.Lower.Precision == p && r.End.Upper.Precision == p
}

// DateAgrees tells whether the representations of a date denote the same
// moment. The year, month and day are missing from dates with a time.
func DateAgrees(d *edtf.Date, timed bool) bool {
	if d.Open || d.Unknown {
		return d.Timestamp == nil && d.DateTime == "" && d.YMD == nil
	}
	if d.Timestamp == nil {
		return false
	}
	if timed {
		return d.YMD == nil && d.DateTime == d.Timestamp.Time().Format(time.RFC3339)
	}
	if d.YMD == nil {
		return false
	}
	y, m, dd := d.YMD.Year, d.YMD.Month, d.YMD.Day
	if m < 1 || m > 12 || dd < 1 || dd > MonthLen(y, m) {
		return false
	}
	s := d.Timestamp.Unix() - Sec(y, m, dd, 0, 0, 0)
	if s < 0 || s > 86399 {
		return false
	}
	return d.DateTime == At(y, m, dd, 0, 0, int(s)).Format(time.RFC3339)
}

// SideAgrees looks at one side of a result.
func SideAgrees(r *edtf.DateRange, timed bool) bool {
	if !DateAgrees(r.Lower, timed) || !DateAgrees(r.Upper, timed) {
		return false
	}
	if r.Lower.Open != r.Upper.Open || r.Lower.Unknown != r.Upper.Unknown || r.Lower.Open && r.Lower.Unknown {
		return false
	}
	return r.Lower.Timestamp == nil || r.Lower.Timestamp.Unix() <= r.Upper.Timestamp.Unix()
}

// Ordered tells whether no start is later than the end.
func Ordered(r *edtf.EDTFDate) bool {
	if r.Start.Lower.Timestamp == nil || r.End.Upper.Timestamp == nil {
		return true
	}
	return r.Start.Lower.Timestamp.Unix() <= r.End.Upper.Timestamp.Unix() &&
		r.Start.Lower.Timestamp.Unix() <= r.End.Lower.Timestamp.Unix() &&
		r.Start.Upper.Timestamp.Unix() <= r.End.Upper.Timestamp.Unix()
}

// Accessors tells whether the accessors return the bounds of a result.
func Accessors(r *edtf.EDTFDate) bool {
	t, err := r.Lower()
	if ts := r.Start.Lower.Timestamp; ts == nil {
		if t != nil || Kind(err) != 1 {
			return false
		}
	} else if err != nil || t == nil || t.Unix() != ts.Unix() || t.Nanosecond() != 0 {
		return false
	}
	t, err = r.Upper()
	if ts := r.End.Upper.Timestamp; ts == nil {
		if t != nil || Kind(err) != 1 {
			return false
		}
	} else if err != nil || t == nil || t.Unix() != ts.Unix() || t.Nanosecond() != 0 {
		return false
	}
	return true
}

// Reports tells whether what was parsed echoes its string and names the level
// and the feature.
func Reports(r *edtf.EDTFDate, err error, s string, level int, feature string) bool {
	return err != nil || r.EDTF == s && r.Level == level && r.Feature == feature
}
