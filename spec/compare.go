package zz_verifspec

import (
	"time"

	edtf "github.com/sfomuseum/go-edtf"
)

// InRange: seconds of the years -9999 to 9999, and some more.
func InRange(t int) bool { return -400000000000 <= t && t <= 400000000000 }

// Result is a result with the given instants, or without them on the sides
// that have none.
func Result(e string, start bool, sl, su int, end bool, el, eu int) *edtf.EDTFDate {
	mk := func(has bool, sec int) *edtf.Date {
		d := &edtf.Date{}
		if has {
			t := time.Unix(int64(sec), 0).UTC()
			d.SetTime(&t)
		} else {
			d.Open = sec >= 0
			d.Unknown = !d.Open
		}
		return d
	}
	return &edtf.EDTFDate{
		Start: &edtf.DateRange{EDTF: e, Lower: mk(start, sl), Upper: mk(start, su)},
		End:   &edtf.DateRange{EDTF: e, Lower: mk(end, el), Upper: mk(end, eu)},
		EDTF:  e,
	}
}

// BeforeIs tells whether the answer to "is a date before another one" is right,
// for the latest instant of the one and the earliest of the other (if any).
func BeforeIs(b bool, err error, e string, hasUpper bool, upper int, hasLower bool, lower int) bool {
	if e == ".." || e == "open" {
		return !b && err == nil
	}
	if !hasUpper || !hasLower {
		return !b && err != nil
	}
	return err == nil && b == (upper < lower)
}

// AfterIs is the same for "after".
func AfterIs(a bool, err error, e string, hasLower bool, lower int, hasUpper bool, upper int) bool {
	if e == ".." || e == "open" {
		return !a && err == nil
	}
	if !hasLower || !hasUpper {
		return !a && err != nil
	}
	return err == nil && a == (lower > upper)
}

// SingleBits tells whether flags are single bits and no two are the same: any
// bit p belongs to at most one of them.
func SingleBits(p uint32, flags ...uint32) bool {
	seen := uint32(0)
	for _, f := range flags {
		if f == 0 || f&(f-1) != 0 || seen&f != 0 {
			return false
		}
		seen |= f
	}
	return true
}

func lower(r *edtf.EDTFDate) (bool, int) {
	if ts := r.Start.Lower.Timestamp; ts != nil {
		return true, int(ts.Unix())
	}
	return false, 0
}

func upper(r *edtf.EDTFDate) (bool, int) {
	if ts := r.End.Upper.Timestamp; ts != nil {
		return true, int(ts.Unix())
	}
	return false, 0
}

// StringBefore tells whether the answer to "is x before y" is right, for the
// results of parsing the two.
func StringBefore(b bool, err error, x string, rx *edtf.EDTFDate, ex error, ry *edtf.EDTFDate, ey error) bool {
	if ex != nil || ey != nil {
		return !b && err != nil
	}
	hu, u := upper(rx)
	hl, l := lower(ry)
	return BeforeIs(b, err, x, hu, u, hl, l)
}

// StringAfter is the same for "after".
func StringAfter(b bool, err error, x string, rx *edtf.EDTFDate, ex error, ry *edtf.EDTFDate, ey error) bool {
	if ex != nil || ey != nil {
		return !b && err != nil
	}
	hl, l := lower(rx)
	hu, u := upper(ry)
	return AfterIs(b, err, x, hl, l, hu, u)
}

// StringBetween tells whether the answer to "is x between the inception i and
// the cessation c" is right. The cessation does not matter (and may be faulty)
// where x is before the inception.
func StringBetween(b bool, err error, x string, rx *edtf.EDTFDate, ex error, ri *edtf.EDTFDate, ei error, c string, rc *edtf.EDTFDate, ec error) bool {
	if ex != nil || ei != nil {
		return !b && err != nil
	}
	open := x == ".."
	hu, u := upper(rx)
	hl, l := lower(rx)
	hil, il := lower(ri)
	if !open && (!hu || !hil) {
		return !b && err != nil
	}
	if !open && u < il {
		return !b && (err == nil || ec != nil)
	}
	if c == ".." {
		return b && err == nil
	}
	if ec != nil {
		return !b && err != nil
	}
	if open {
		return b && err == nil
	}
	hcu, cu := upper(rc)
	if !hl || !hcu {
		return !b && err != nil
	}
	return err == nil && b == (l <= cu)
}

// Ranges tells whether ranges are those of a result, if all of its dates have
// an instant, and missing otherwise.
func Ranges(ok bool, has bool, outer1, outer2, inner1, inner2 int64, err error, s string, r *edtf.EDTFDate, perr error) bool {
	if s == "" || s == ".." || s == "open" || s == "uuuu" {
		return !ok && !has && err == nil
	}
	if perr != nil {
		return !ok && !has && err != nil
	}
	if err != nil {
		return false
	}
	a, b, c, d := r.Start.Lower.Timestamp, r.Start.Upper.Timestamp, r.End.Lower.Timestamp, r.End.Upper.Timestamp
	if a == nil || b == nil || c == nil || d == nil {
		return !ok && !has
	}
	return ok && has && outer1 == a.Unix() && outer2 == d.Unix() && inner1 == b.Unix() && inner2 == c.Unix()
}
