package main

import (
	"flag"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strings"
	"time"
)

// selftest compares what the engine assumes with what it is about: the closed
// form, the lemmas and the inverse of the day count with package time, on every
// month of a span of years that holds many periods of the calendar; and every
// condition with the real code and the real library, on generated arguments.

func cmdSelftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	per := fs.Duration("per", 2*time.Second, "per condition")
	fs.Parse(args)
	bad := testCalendar()
	w, all, _, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "loading:", err)
		os.Exit(2)
	}
	var rn runner
	defer rn.close()
	if err := rn.build(w); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	known := knownFindings()
	_, seed := tierSeed()
	total := 0
	for _, c := range all {
		for _, sub := range append([]*Contract{}, subsOf(c)...) {
			sel := len(fs.Args()) == 0
			for _, a := range fs.Args() {
				sel = sel || strings.HasPrefix(sub.ID, a)
			}
			if !sel {
				continue
			}
			a, res, n := rn.search(sub, nil, seed, *per, 20000000, runtime.NumCPU(), nil)
			total += n
			if a == nil {
				continue
			}
			for _, p := range c.Props {
				if known.match(p, replayFile{Condition: sub.ID, Show: showArgs(a), Confirmed: true}) != "" {
					a = nil
					break
				}
			}
			if a != nil {
				fmt.Printf("%s: %s %s %s on %s\n", sub.ID, res.Status, res.Label, res.Detail, strings.Join(showArgs(a), " "))
				bad++
			}
		}
	}
	fmt.Printf("selftest: %d runs of the conditions on the real code, %d failures\n", total, bad)
	if bad > 0 {
		os.Exit(1)
	}
}

func subsOf(c *Contract) []*Contract {
	if len(c.Subs) > 0 {
		return c.Subs
	}
	return []*Contract{c}
}

func testCalendar() int {
	c := NewTCtx()
	bad := 0
	epoch := time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC).Unix() / 86400
	fail := func(f string, a ...interface{}) {
		if bad++; bad < 20 {
			fmt.Printf("calendar: "+f+"\n", a...)
		}
	}
	const span = 12000
	iv := ival{lo: -100000, hi: 100000}
	y, m := c.Var("y", SInt, iv), c.Var("m", SInt, iv)
	app := c.UF("days0", SInt, ival{lo: -400000000000, hi: 400000000000}, y, m)
	def := c.days0Def(app)
	dim := c.DaysIn(y, m)
	y2, m2 := c.Var("y2", SInt, iv), c.Var("m2", SInt, iv)
	app2 := c.UF("days0", SInt, ival{lo: -400000000000, hi: 400000000000}, y2, m2)
	lemma := c.days0Lemma(app, app2)
	for yy := int64(-span); yy <= span; yy++ {
		for mm := int64(1); mm <= 12; mm++ {
			want := floorDiv(time.Date(int(yy), time.Month(mm), 1, 0, 0, 0, 0, time.UTC).Unix(), 86400) - epoch
			if d := days0Const(yy, mm); d != want {
				fail("days0(%d,%d) = %d, want %d", yy, mm, d, want)
			}
			if cy, cm, cd := civilConst(want); cy != yy || cm != mm || cd != 1 {
				fail("civil(%d) = %d-%d-%d, want %d-%d-1", want, cy, cm, cd, yy, mm)
			}
			mod := Model{y.id: big.NewInt(yy), m.id: big.NewInt(mm), app.id: big.NewInt(want)}
			if v, ok := c.eval(def, mod, map[int]*big.Int{}); !ok || v.Sign() == 0 {
				fail("the definition of days0(%d,%d) does not hold", yy, mm)
			}
			n := int64(time.Date(int(yy), time.Month(mm+1), 0, 0, 0, 0, 0, time.UTC).Day())
			if v, ok := c.eval(dim, mod, map[int]*big.Int{}); !ok || v.Int64() != n {
				fail("days of %d-%d: %v, want %d", yy, mm, v, n)
			}
			for _, k := range []int64{-4800, -25, -2, -1, 0, 1, 2, 3, 47, 1199, 4801} {
				t := yy*12 + mm - 1 + k
				by, bm := floorDiv(t, 12), t-12*floorDiv(t, 12)+1
				d2 := floorDiv(time.Date(int(by), time.Month(bm), 1, 0, 0, 0, 0, time.UTC).Unix(), 86400) - epoch
				mod[y2.id], mod[m2.id], mod[app2.id] = big.NewInt(by), big.NewInt(bm), big.NewInt(d2)
				if v, ok := c.eval(lemma, mod, map[int]*big.Int{}); !ok || v.Sign() == 0 {
					fail("the lemma on %d-%d and %d-%d does not hold", yy, mm, by, bm)
				}
			}
		}
	}
	fmt.Printf("calendar: %d months compared with package time, %d failures\n", (2*span+1)*12, bad)
	return bad
}
