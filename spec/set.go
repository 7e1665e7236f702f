package zz_verifspec

import (
	"strings"

	edtf "github.com/sfomuseum/go-edtf"
)

// SetText is the set with the given members and separators (",", or ".." for a
// range) in between; from and until tell whether it is open at its beginning and
// at its end.
func SetText(curly, from, until bool, parts ...string) string {
	s := strings.Join(parts, "")
	if from {
		s = ".." + s
	}
	if until {
		s += ".."
	}
	if curly {
		return "{" + s + "}"
	}
	return "[" + s + "]"
}

// Member is what a member of a set covers.
type Member struct {
	Span *edtf.DateSpan
	Err  error
}

func marked(d *edtf.Date, inc edtf.Precision) bool {
	return d.Timestamp != nil && d.DateTime != "" && d.YMD != nil && !d.Open && !d.Unknown && d.Inclusivity == inc
}

func isOpen(d *edtf.Date) bool {
	return d.Open && !d.Unknown && d.Timestamp == nil && d.DateTime == "" && d.YMD == nil && d.Inclusivity == 0
}

// bounds tells whether two instants are the first and the last of the members.
func bounds(first, last int64, ms []Member) bool {
	isFirst, isLast := false, false
	for _, m := range ms {
		l, u := m.Span.Start.Lower.Timestamp.Unix(), m.Span.End.Upper.Timestamp.Unix()
		if l < first || u > last {
			return false
		}
		isFirst = isFirst || l == first
		isLast = isLast || u == last
	}
	return isFirst && isLast
}

// Set tells whether a result is that of the set with the given members.
func Set(r *edtf.EDTFDate, err error, curly, from, until bool, ms ...Member) bool {
	for _, m := range ms {
		if m.Err != nil {
			return Refused(r, err)
		}
	}
	if err != nil || r == nil {
		return false
	}
	inc := edtf.ANY
	if curly {
		inc = edtf.ALL
	}
	switch {
	case from && until:
		return isOpen(r.Start.Lower) && isOpen(r.Start.Upper) && isOpen(r.End.Lower) && isOpen(r.End.Upper)
	case from:
		return isOpen(r.Start.Lower) && isOpen(r.Start.Upper) && marked(r.End.Lower, inc) && marked(r.End.Upper, inc) &&
			bounds(r.End.Lower.Timestamp.Unix(), r.End.Upper.Timestamp.Unix(), ms)
	case until:
		return isOpen(r.End.Lower) && isOpen(r.End.Upper) && marked(r.Start.Lower, inc) && marked(r.Start.Upper, inc) &&
			bounds(r.Start.Lower.Timestamp.Unix(), r.Start.Upper.Timestamp.Unix(), ms)
	}
	return marked(r.Start.Lower, inc) && marked(r.Start.Upper, inc) && marked(r.End.Lower, inc) && marked(r.End.Upper, inc) &&
		bounds(r.Start.Lower.Timestamp.Unix(), r.End.Upper.Timestamp.Unix(), ms)
}

// Sep is what separates two members.
func Sep(ranged bool) string {
	if ranged {
		return ".."
	}
	return ","
}
