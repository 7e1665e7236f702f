package zz_verifspec

import (
	"time"

	edtf "github.com/sfomuseum/go-edtf"
)

// IsYMD tells whether a conversion gave a year, month and day.
func IsYMD(r *edtf.YMD, err error, y, m, d int) bool {
	return err == nil && r != nil && r.Year == y && r.Month == m && r.Day == d
}

// YMDOrRefused tells whether a conversion gave a day, or an error when there is
// no such day.
func YMDOrRefused(r *edtf.YMD, err error, y, m, d int) bool {
	if !Exists(y, m, d) {
		return r == nil && err != nil
	}
	return IsYMD(r, err, y, m, d)
}

// PartsOrRefused is YMDOrRefused for a month and a day that may be missing.
func PartsOrRefused(r *edtf.YMD, err error, y int, m, d string) bool {
	switch {
	case m == "" && d != "":
		return r == nil && err != nil
	case m == "":
		return IsYMD(r, err, y, 1, 31)
	case d == "":
		return YMDOrRefused(r, err, y, Num(m), MonthLen(y, Num(m)))
	}
	return YMDOrRefused(r, err, y, Num(m), Num(d))
}

// TimeOrRefused tells whether a conversion gave the second of a day in UTC, or
// an error when there is no such day.
func TimeOrRefused(t *time.Time, err error, y, m, d, hh, mm, ss int) bool {
	if !Exists(y, m, d) {
		return t == nil && err != nil
	}
	if err != nil || t == nil {
		return false
	}
	return t.Unix() == Sec(y, m, d, hh, mm, ss) && t.Day() == d && t.Hour() == hh && t.Minute() == mm && t.Nanosecond() == 0
}
