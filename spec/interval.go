package zz_verifspec

import (
	"strings"

	edtf "github.com/sfomuseum/go-edtf"
)

// sameDate tells whether a date has the instant, the day and the flags of
// another one.
func sameDate(d, o *edtf.Date) bool {
	return d.Timestamp != nil && o.Timestamp != nil && d.YMD != nil && o.YMD != nil &&
		d.Timestamp.Unix() == o.Timestamp.Unix() && d.DateTime == o.DateTime && d.YMD.Equals(o.YMD) &&
		d.Uncertain == o.Uncertain && d.Approximate == o.Approximate && d.Unspecified == o.Unspecified &&
		d.Precision == o.Precision && d.Inclusivity == 0 && !d.Open && !d.Unknown
}

// noDate tells whether a date is open or unknown and nothing else.
func noDate(d *edtf.Date, open bool) bool {
	return d.Open == open && d.Unknown == !open && d.Timestamp == nil && d.DateTime == "" && d.YMD == nil &&
		d.Uncertain == 0 && d.Approximate == 0 && d.Unspecified == 0 && d.Precision == 0 && d.Inclusivity == 0
}

// side tells whether a side of an interval is what its operand stands for.
func side(r *edtf.DateRange, op string, sp *edtf.DateSpan, err error) bool {
	if r == nil || r.EDTF != op {
		return false
	}
	if op == ".." || op == "" {
		return noDate(r.Lower, op == "..") && noDate(r.Upper, op == "..")
	}
	return err == nil && sameDate(r.Lower, sp.Start.Lower) && sameDate(r.Upper, sp.End.Upper)
}

// Operands are the two operands of an interval.
func Operands(s string) (string, string) {
	parts := strings.Split(s, "/")
	return parts[0], parts[1]
}

// Interval tells whether a result is the interval between two operands, which
// cover sa and sb; it is an error if either of them is one.
func Interval(r *edtf.EDTFDate, err error, a string, sa *edtf.DateSpan, ea error, b string, sb *edtf.DateSpan, eb error) bool {
	if ea != nil && a != ".." && a != "" || eb != nil && b != ".." && b != "" {
		return Refused(r, err)
	}
	return err == nil && r != nil && side(r.Start, a, sa, ea) && side(r.End, b, sb, eb)
}

// SameSpan tells whether a result covers exactly a span, with the same flags.
func SameSpan(r *edtf.EDTFDate, err error, sp *edtf.DateSpan, serr error) bool {
	if serr != nil {
		return Refused(r, err)
	}
	return err == nil && r != nil && sameDate(r.Start.Lower, sp.Start.Lower) && sameDate(r.Start.Upper, sp.Start.Upper) &&
		sameDate(r.End.Lower, sp.End.Lower) && sameDate(r.End.Upper, sp.End.Upper)
}

// Echoes tells whether a result, if there is one, reports what matching does
// and the string itself.
func Echoes(r *edtf.EDTFDate, err error, s string, level int, feature string, merr error) bool {
	if err != nil {
		return r == nil
	}
	return r != nil && merr == nil && r.Level == level && r.Feature == feature && r.EDTF == s && r.String() == s
}
