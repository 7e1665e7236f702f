package zz_verifspec

import (
	"encoding/json"
	"sort"
	"strconv"
	"strings"

	edtf "github.com/sfomuseum/go-edtf"
)

// JSONText is the text at a path of member names in a JSON document, or
// nothing; of an object, it is the sorted list of its members.
func JSONText(b []byte, path string) string {
	if path != "" {
		for _, k := range strings.Split(path, ".") {
			var m map[string]json.RawMessage
			if err := json.Unmarshal(b, &m); err != nil {
				return ""
			}
			b = m[k]
		}
	}
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) == nil && m != nil {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	}
	return string(b)
}

// Stamp is the timestamp of a second.
func Stamp(n int64) (*edtf.Timestamp, error) {
	ts := new(edtf.Timestamp)
	err := ts.UnmarshalJSON([]byte(strconv.FormatInt(n, 10)))
	return ts, err
}

// Decoded tells whether decoding the text s into a timestamp that was old gave
// the right timestamp, or else an error and no change.
func Decoded(s string, old int64, now int64, err error) bool {
	if err != nil && now != old {
		return false
	}
	switch {
	case InLang(s, `^"?-?(0|[1-9][0-9]*)"?$`):
		n, perr := strconv.ParseInt(strings.Trim(s, `"`), 10, 64)
		if perr != nil {
			return err != nil
		}
		return err == nil && now == n
	case InLang(s, `^"*[+-]?[0-9]+"*$`):
		// a plus sign or leading zeros, or quotes that do not match: whatever
		return true
	}
	return err != nil
}

// ADate is any date.
func ADate(dt string, stamp bool, ts int, ymd bool, y, m, d int, u, a, us, p, inc uint32, open, unknown bool) *edtf.Date {
	r := &edtf.Date{
		DateTime: dt, Uncertain: edtf.Precision(u), Approximate: edtf.Precision(a), Unspecified: edtf.Precision(us),
		Precision: edtf.Precision(p), Inclusivity: edtf.Precision(inc), Open: open, Unknown: unknown,
	}
	if stamp {
		r.Timestamp, _ = Stamp(int64(ts))
	}
	if ymd {
		r.YMD = &edtf.YMD{Year: y, Month: m, Day: d}
	}
	return r
}

// DateMembers are the members of an encoded date.
func DateMembers(d *edtf.Date) string {
	s := ""
	add := func(n string, set bool) {
		if set {
			s += "," + n
		}
	}
	add("approximate", d.Approximate != 0)
	add("datetime", d.DateTime != "")
	add("inclusivity", d.Inclusivity != 0)
	add("open", d.Open)
	add("precision", d.Precision != 0)
	add("timestamp", d.Timestamp != nil)
	add("uncertain", d.Uncertain != 0)
	add("unknown", d.Unknown)
	add("unspecified", d.Unspecified != 0)
	add("ymd", true)
	return "{" + s[1:] + "}"
}
