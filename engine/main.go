package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine vc|check|replay|selftest ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "vc":
		cmdVC(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "selftest":
		cmdSelftest(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// load builds the program with its verification conditions.
func load() (*World, []*Contract, map[string]*Contract, error) {
	ov, cs, err := buildOverlay(repoDir(), verifDir())
	if err != nil {
		return nil, nil, nil, err
	}
	pats := []string{"./zz_verifrun"}
	dirs, _ := libDirs(repoDir())
	for _, d := range dirs {
		pats = append(pats, "./"+filepath.ToSlash(d))
	}
	w, err := LoadWorld(repoDir(), verifDir(), ov, pats)
	if err != nil {
		return nil, nil, nil, err
	}
	byFn := map[string]*Contract{}
	for _, c := range cs {
		if c.Func != "" {
			byFn[fnName(c)] = c
		}
	}
	return w, cs, byFn, nil
}

func fnName(c *Contract) string {
	if c.Pkg == "." {
		return modPath + "." + c.Func
	}
	return modPath + "/" + filepath.ToSlash(c.Pkg) + "." + c.Func
}

func cmdVC(args []string) {
	fs := flag.NewFlagSet("vc", flag.ExitOnError)
	trace := fs.Bool("trace", false, "")
	lim := fs.Duration("limit", 2*time.Minute, "")
	prof := fs.String("prof", "", "")
	seeds := fs.Bool("seeds", false, "")
	inl := fs.Bool("inline", false, "do not use contracts at call sites")
	fs.DurationVar(&slowLog, "slow", 0, "report slow queries")
	fs.Parse(args)
	t0 := time.Now()
	w, cs, byFn, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0))
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var gen []*Contract
	for _, c := range cs {
		if len(c.Subs) > 0 {
			gen = append(gen, c.Subs...)
		} else {
			gen = append(gen, c)
		}
	}
	for _, c := range gen {
		sel := len(fs.Args()) == 0
		for _, a := range fs.Args() {
			if c.ID == a || strings.HasSuffix(a, "*") && strings.HasPrefix(c.ID, a[:len(a)-1]) {
				sel = true
			}
		}
		if !sel {
			continue
		}
		m := byFn
		if *inl {
			m = nil
		}
		r := w.runVC(c, map[string]bool{}, m, *lim, *trace)
		printResult(w, r)
		printForks()
		if *seeds {
			for _, s := range r.Run.seeds {
				fmt.Println("   seed", s)
			}
		}
	}
}

func printResult(w *World, r *VCResult) {
	fmt.Printf("%s: %s %s  paths=%d steps=%d queries=%d (hits %d, model %d) solver=%v total=%v\n", r.C.ID, r.Status, r.Reason, r.Paths, r.Steps, r.Stats.Queries, r.Stats.CacheHits, r.Stats.ModelHits, r.Stats.Time.Round(time.Millisecond), r.Dur.Round(time.Millisecond))
	if r.Run == nil {
		return
	}
	for _, l := range r.labels() {
		o := r.Run.obls[l]
		fmt.Printf("   %s: paths=%d trivial=%d solver=%d failed=%d\n", l, o.Paths, o.Trivial, o.Solver, o.Failed)
	}
	for _, f := range r.Fails {
		fmt.Printf("   FAIL %s %s %s at %s unknown=%v\n     %s\n", f.Kind, f.Label, f.Msg, f.Where, f.Unknown, strings.Join(f.Show, " "))
		if os.Getenv("VERBOSE") != "" {
			fmt.Println(f.PC)
		}
	}
}
