package zz_verifspec

import (
	"strings"

	edtf "github.com/sfomuseum/go-edtf"
)

// monthsOfGrouping are the first and the last month of a season or sub-year
// grouping; the last one may belong to the next year.
func monthsOfGrouping(g int) (first int, last int, next bool) {
	switch g {
	case 21, 25, 31:
		return 3, 5, false
	case 22, 26, 32:
		return 6, 8, false
	case 23, 27, 29:
		return 9, 11, false
	case 24, 28, 30:
		return 12, 2, true
	case 33, 34, 35, 36:
		q := g - 33
		return 3*q + 1, 3*q + 3, false
	case 37, 38, 39:
		q := g - 37
		return 4*q + 1, 4*q + 4, false
	}
	q := g - 40
	return 6*q + 1, 6*q + 6, false
}

// Grouping tells whether a result covers a season or a sub-year grouping of a
// year. Nothing is said about groupings that end in the year 10000.
func Grouping(r *edtf.EDTFDate, err error, y int, g int) bool {
	m1, m2, next := monthsOfGrouping(g)
	y2 := y
	if next {
		y2 = y + 1
	}
	if y2 > 9999 {
		return true
	}
	return Bounds(r, err, y, m1, 1, y2, m2, MonthLen(y2, m2))
}

// SeasonNumber is the number of a named season.
func SeasonNumber(name string) int {
	switch {
	case InLang(name, `(?i)^spring$`):
		return 21
	case InLang(name, `(?i)^summer$`):
		return 22
	case InLang(name, `(?i)^fall$`):
		return 23
	}
	return 24
}

// Pow10 is 10 to the power of 0 to 4.
func Pow10(n int) int {
	p := 1
	switch n {
	case 1:
		p = 10
	case 2:
		p = 100
	case 3:
		p = 1000
	case 4:
		p = 10000
	}
	return p
}

// Significant tells whether a result covers the years that differ from a year
// in the last n digits only.
func Significant(r *edtf.EDTFDate, err error, negative bool, y int, n int) bool {
	p := Pow10(n)
	a := y / p * p
	b := a + p - 1
	if negative {
		a, b = -b, -a
	}
	return Bounds(r, err, a, 1, 1, b, 12, 31)
}

// Year tells whether a result covers exactly one year.
func Year(r *edtf.EDTFDate, err error, y int) bool {
	return Covers(r, err, y, 1, 1, y, 12, 31)
}

// ---- precision

// PrecisionOf is the precision of a date with unspecified digits.
func PrecisionOf(y, m, d string) edtf.Precision {
	if d == "XX" && m == "XX" {
		return edtf.YEAR
	}
	if d == "XX" || m == "0X" || m == "1X" {
		return edtf.MONTH
	}
	if !strings.HasSuffix(y, "X") {
		return edtf.YEAR
	}
	if y[2] != 'X' {
		return edtf.DECADE
	}
	if y[1] != 'X' {
		return edtf.CENTURY
	}
	return edtf.MILLENIUM
}

// PrecIfParsed tells whether there is an error, or a result of this precision.
func PrecIfParsed(r *edtf.EDTFDate, err error, p edtf.Precision) bool {
	return err != nil || Prec(r, err, p)
}

// NoPrecision tells whether the open and unknown sides of a result, or all of
// it if timed, carry no precision.
func NoPrecision(r *edtf.EDTFDate, timed bool) bool {
	no := func(d *edtf.Date) bool { return !timed && !d.Open && !d.Unknown || d.Precision == 0 }
	return no(r.Start.Lower) && no(r.Start.Upper) && no(r.End.Lower) && no(r.End.Upper)
}
