package main

import (
	"math/rand"
	"regexp"
	"testing"
)

func TestLang(t *testing.T) {
	for _, src := range []string{`^(\-?\d{4})(?:-([0][1-9]|1[0-2])(?:-(0[1-9]|[12][0-9]|3[01]))?)?$`, `a|b$`, `^(?i:(spring|fall))\s*,\s*\d{4}$`, `^Y(\-?\d+)$`, `[^a]x`, `^a.c\b`} {
		r, err := compileRegex(src)
		if err != nil {
			t.Fatal(err)
		}
		g := regexp.MustCompile(src)
		alpha := []string{"0", "1", "9", "2", "-", "a", "b", "c", "x", "\xff", "ſ", "s", "p", "spring", "FALL", ",", " ", "Y", "\n", "2004"}
		n := 0
		for i := 0; i < 200000; i++ {
			s := ""
			for k := rand.Intn(7); k > 0; k-- {
				s += alpha[rand.Intn(len(alpha))]
			}
			if g.MatchString(s) {
				n++
			}
			if g.MatchString(s) != r.full.accepts(s) {
				t.Fatalf("%q %q", src, s)
			}
		}
		w, _ := r.full.shortest()
		t.Log(src, len(r.full.edges), n, r.full.minL, r.full.maxL, w)
	}
}
