package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// jobs runs conditions in parallel.
func (w *World) runAll(cs []*Contract, bad map[string]bool, byFn map[string]*Contract, limit time.Duration, deadline time.Time) map[string]*VCResult {
	out := map[string]*VCResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan *Contract)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				b := map[string]bool{}
				for k := range bad {
					b[k] = true
				}
				l := limit
				if rest := time.Until(deadline); rest < l {
					l = rest
				}
				if l < 5*time.Second {
					l = 5 * time.Second
				}
				slow := time.AfterFunc(25*time.Second, func() {
					if w.onSlow != nil {
						w.onSlow(c)
					}
				})
				r := w.runSafe(c, b, byFn, l)
				slow.Stop()
				if r.Run != nil {
					r.Run.params, r.Run.pstate = nil, nil
				}
				if w.stop.Load() && r.Status == "undecided" {
					r.Reason = notRerun
				}
				if w.onDone != nil {
					w.onDone(c, r)
				}
				mu.Lock()
				out[c.ID] = r
				mu.Unlock()
			}
		}()
	}
	for _, c := range cs {
		ch <- c
	}
	close(ch)
	wg.Wait()
	return out
}

func (w *World) runSafe(c *Contract, bad map[string]bool, byFn map[string]*Contract, limit time.Duration) (r *VCResult) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r = &VCResult{C: c, Status: "undecided", Reason: fmt.Sprintf("internal error: %v %s", e, buf)}
		}
	}()
	return w.runVC(c, bad, byFn, limit, false)
}

// ---- native execution

type runner struct {
	mu   sync.Mutex
	dir  string
	bin  string
	err  error
	done bool
	cmd  *exec.Cmd

	isTwin bool

	in  io.WriteCloser
	out *bufio.Reader
}

func (r *runner) build(w *World) error {
	if r.done {
		return r.err
	}
	r.done = true
	r.dir, r.err = os.MkdirTemp("", "verif-run-")
	if r.err != nil {
		return r.err
	}
	ov, err := writeOverlay(r.dir, w.overlay)
	if err != nil {
		r.err = err
		return err
	}
	mf, cleanup, err := modCopy(w.repo)
	if err != nil {
		r.err = err
		return err
	}
	defer cleanup()
	r.bin = filepath.Join(r.dir, "run")
	cmd := exec.Command("go", "build", "-overlay", ov, "-modfile="+mf, "-o", r.bin, "./zz_verifrun")
	cmd.Dir = w.repo
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		r.err = fmt.Errorf("building the runner: %v: %s", err, b)
	}
	return r.err
}

func (r *runner) close() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
	}
	if r.dir != "" && !r.isTwin {
		os.RemoveAll(r.dir)
	}
}

type nativeRes struct {
	Status string `json:"status"`
	Label  string `json:"label,omitempty"`
	Detail string `json:"detail,omitempty"`
}

// run executes a condition on concrete arguments.
func (r *runner) run(vc string, args []string) nativeRes {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cmd == nil {
		r.cmd = exec.Command(r.bin)
		r.cmd.Dir = r.dir
		r.cmd.Env = append(os.Environ(), "TZ=America/St_Johns")
		r.in, _ = r.cmd.StdinPipe()
		o, _ := r.cmd.StdoutPipe()
		r.out = bufio.NewReaderSize(o, 1<<20)
		if err := r.cmd.Start(); err != nil {
			r.cmd = nil
			return nativeRes{Status: "error", Detail: err.Error()}
		}
	}
	var b bytes.Buffer
	b.WriteString(`{"vc":` + strconv.Quote(vc) + `,"args":[` + strings.Join(args, ",") + "]}\n")
	stop := func(d string) nativeRes {
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
		return nativeRes{Status: "crash", Detail: d}
	}
	if _, err := r.in.Write(b.Bytes()); err != nil {
		return stop(err.Error())
	}
	type lr struct {
		l   []byte
		err error
	}
	ch := make(chan lr, 1)
	rd := r.out
	go func() {
		l, err := rd.ReadBytes('\n')
		ch <- lr{l, err}
	}()
	select {
	case l := <-ch:
		if l.err != nil {
			return stop("the program ended: " + l.err.Error())
		}
		var res nativeRes
		if err := json.Unmarshal(l.l, &res); err != nil {
			return nativeRes{Status: "error", Detail: err.Error()}
		}
		if res.Status == "hang" {
			r.cmd.Process.Kill()
			r.cmd.Wait()
			r.cmd = nil
		}
		return res
	case <-time.After(20 * time.Second):
		return stop("no answer within 20 s")
	}
}

func (n nativeRes) fails() bool {
	return n.Status == "fail" || n.Status == "panic" || n.Status == "hang" || n.Status == "crash"
}

const notRerun = "not decided: a failing input of the property is known"

// twin is a runner of its own on the same program.
func (r *runner) twin() *runner { return &runner{dir: r.dir, bin: r.bin, done: true, isTwin: true} }

// search looks for a failing input of a condition natively: the given arguments,
// then generated ones, in several processes until one finds an input.
func (r *runner) search(c *Contract, seeds [][]string, seed int64, limit time.Duration, max, procs int, giveUp func() bool) ([]string, nativeRes, int) {
	t0 := time.Now()
	if max <= 1000 {
		procs = 1 + max/200
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := 0
	var found []string
	var foundRes nativeRes
	over := func() bool {
		mu.Lock()
		defer mu.Unlock()
		n++
		return found != nil || n > max || time.Since(t0) > limit || giveUp != nil && n&63 == 0 && giveUp()
	}
	kinds, langs, hints := paramKinds(c), paramLangs(c), paramHints(c)
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			q := r.twin()
			defer q.close()
			rnd := rand.New(rand.NewSource(seed*1000 + int64(k)))
			try := func(a []string) bool {
				res := q.run(c.ID, a)
				if !res.fails() {
					return false
				}
				mu.Lock()
				defer mu.Unlock()
				if found == nil {
					found, foundRes = a, res
				}
				return true
			}
			for i := k; i < len(seeds); i += procs {
				if over() || try(seeds[i]) {
					return
				}
			}
			for max > len(seeds) && !over() {
				var a []string
				fresh := len(seeds) == 0 || rnd.Intn(4) > 0
				if fresh {
					a = genArgs(rnd, kinds, langs, hints)
				} else {
					a = append([]string{}, seeds[rnd.Intn(len(seeds))]...)
				}
				if len(a) > 0 && (!fresh || rnd.Intn(4) == 0) {
					for k := 1 + rnd.Intn(3); k > 0; k-- {
						i := rnd.Intn(len(a))
						if len(seeds) > 0 && rnd.Intn(8) == 0 {
							a[i] = seeds[rnd.Intn(len(seeds))][i]
						} else {
							a[i] = mutate(rnd, a[i])
						}
					}
				}
				if try(a) || len(a) == 0 {
					return
				}
			}
		}(k)
	}
	wg.Wait()
	return found, foundRes, n
}

func mutate(rnd *rand.Rand, a string) string {
	if !strings.HasPrefix(a, "[") {
		if v, err := strconv.ParseInt(a, 10, 64); err == nil {
			switch rnd.Intn(4) {
			case 0:
				return strconv.FormatInt(v+int64(rnd.Intn(5)-2), 10)
			case 1:
				return strconv.FormatInt(int64(rnd.Intn(20)-4), 10)
			case 2:
				return strconv.FormatInt(int64(rnd.Intn(20000)-10000), 10)
			}
			return strconv.FormatInt(-v, 10)
		}
		if a == "true" {
			return "false"
		}
		if a == "false" {
			return "true"
		}
		return a
	}
	var bs []int
	if json.Unmarshal([]byte(a), &bs) != nil {
		return a
	}
	const chars = "0123456789XX-/.:TZ?~%YESW+{}[],us \n"
	switch k := rnd.Intn(10); {
	case k < 7 && len(bs) > 0:
		i := rnd.Intn(len(bs))
		if bs[i] >= '0' && bs[i] <= '9' && rnd.Intn(6) > 0 {
			bs[i] = '0' + rnd.Intn(10)
		} else {
			bs[i] = int(chars[rnd.Intn(len(chars))])
		}
	case k < 8 && len(bs) > 0:
		i := rnd.Intn(len(bs))
		bs = append(bs[:i:i], bs[i+1:]...)
	default:
		i := rnd.Intn(len(bs) + 1)
		bs = append(bs[:i:i], append([]int{int(chars[rnd.Intn(len(chars))])}, bs[i:]...)...)
	}
	p := make([]string, len(bs))
	for i, b := range bs {
		p[i] = strconv.Itoa(b)
	}
	return "[" + strings.Join(p, ",") + "]"
}

func showArgs(args []string) []string {
	var out []string
	for _, a := range args {
		var bs []int
		if strings.HasPrefix(a, "[") && json.Unmarshal([]byte(a), &bs) == nil {
			raw := make([]byte, len(bs))
			for i, b := range bs {
				raw[i] = byte(b)
			}
			out = append(out, strconv.Quote(string(raw)))
			continue
		}
		out = append(out, a)
	}
	return out
}

// ---- failing inputs while the proofs run

type huntItem struct {
	c     *Contract
	args  [][]string
	label string
	deep  bool
}

type huntFound struct {
	c    *Contract
	args []string
	res  nativeRes
}

type hunt struct {
	mu    sync.Mutex
	cond  *sync.Cond
	quick []huntItem
	deep  []huntItem
	ended bool
	found *huntFound
	done  chan struct{}
}

func newHunt(w *World, rn *runner, prop string, known findings, labelled map[string]bool, seed int64, ready func() error) *hunt {
	h := &hunt{done: make(chan struct{})}
	h.cond = sync.NewCond(&h.mu)
	w.onFail = func(c *Contract, f *Failure) {
		if labelled[c.ID] {
			h.add(huntItem{c: c, args: [][]string{f.Args}}, false)
		}
	}
	w.onSlow = func(c *Contract) {
		if labelled[c.ID] {
			h.add(huntItem{c: c, deep: true}, true)
		}
	}
	w.onDone = func(c *Contract, r *VCResult) {
		if labelled[c.ID] && r.Status != "proved" && !w.stop.Load() {
			var seeds [][]string
			for _, f := range r.Fails {
				seeds = append(seeds, f.Args)
			}
			if r.Run != nil {
				seeds = append(seeds, r.Run.seeds...)
			}
			h.add(huntItem{c: c, args: seeds, deep: true}, true)
		}
	}
	go func() {
		defer close(h.done)
		var q *runner
		for {
			it, ok := h.next()
			if !ok {
				return
			}
			if ready() != nil {
				return
			}
			if q == nil {
				q = rn.twin()
				defer q.close()
			}
			var a []string
			var res nativeRes
			if it.deep {
				a, res, _ = rn.search(it.c, append(it.args, variants(it.args)...), seed, 15*time.Second, 20000000, 4, h.over)
				if a == nil && h.over() {
					h.add(it, true) // it gave way
				}
			} else {
				a = it.args[0]
				res = q.run(it.c.ID, a)
			}
			if a == nil || res.Status != "fail" && res.Status != "panic" {
				continue
			}
			if res = q.run(it.c.ID, a); res.Status != "fail" && res.Status != "panic" {
				continue
			}
			if known.match(prop, replayFile{Condition: it.c.ID, Show: showArgs(a), Confirmed: true}) != "" {
				continue
			}
			h.found = &huntFound{it.c, a, res}
			w.stop.Store(true)
			return
		}
	}()
	return h
}

func (h *hunt) add(it huntItem, deep bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if deep {
		h.deep = append(h.deep, it)
	} else {
		h.quick = append(h.quick, it)
	}
	h.cond.Signal()
}

func (h *hunt) next() (huntItem, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.ended {
			return huntItem{}, false
		}
		if len(h.quick) > 0 {
			it := h.quick[0]
			h.quick = h.quick[1:]
			return it, true
		}
		if len(h.deep) > 0 {
			it := h.deep[0]
			h.deep = h.deep[1:]
			return it, true
		}
		h.cond.Wait()
	}
}

// over tells whether a search has to give way.
func (h *hunt) over() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.ended || len(h.quick) > 0
}

// close ends the hunt; the proofs are over.
func (h *hunt) close() {
	h.mu.Lock()
	h.ended = true
	h.cond.Broadcast()
	h.mu.Unlock()
	<-h.done
}

// ---- the check of one property

type replayFile struct {
	Property   string   `json:"property"`
	Condition  string   `json:"condition"`
	Obligation string   `json:"obligation"`
	Kind       string   `json:"kind"`
	Where      string   `json:"where,omitempty"`
	Message    string   `json:"message,omitempty"`
	Args       []string `json:"args,omitempty"`
	Show       []string `json:"show,omitempty"`
	Native     string   `json:"native,omitempty"`
	Confirmed  bool     `json:"confirmed"`
	Verifier   string   `json:"verifier,omitempty"`
	Rerun      string   `json:"rerun"`
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	limit := fs.Duration("limit", 5*time.Minute, "per condition")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: engine check PROPERTY")
		os.Exit(2)
	}
	os.Exit(check(fs.Arg(0), *limit, *verbose))
}

func tierSeed() (string, int64) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return tier, seed
}

func check(prop string, limit time.Duration, verbose bool) int {
	t0 := time.Now()
	tier, seed := tierSeed()
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, "replay-"+prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	// a check that has no answer in time raises the alarm
	watchdog := time.AfterFunc(850*time.Second, func() {
		p := filepath.Join(evDir, "replay-"+prop+"-0.json")
		b, _ := json.MarshalIndent(replayFile{Property: prop, Kind: "undecided", Message: "the proofs did not end within the time of the check", Rerun: "check.sh " + prop}, "", "  ")
		os.WriteFile(p, b, 0o644)
		ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": map[string]interface{}{
			"obligations": 1, "discharged": 0, "checker_cmd": "engine/engine check " + prop, "trusted_base": []string{"engine"},
		}, "assumptions": assumptions(), "wall_s": round(time.Since(t0)), "violations": 1}
		b, _ = json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		os.Exit(1)
	})
	defer watchdog.Stop()
	w, all, byFn, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, "loading:", err)
		return 2
	}
	var sel []*Contract
	byID := map[string]*Contract{}
	skipped := 0
	proofs := func(c *Contract) []*Contract {
		if len(c.Subs) > 0 {
			return c.Subs
		}
		return []*Contract{c}
	}
	for _, c := range all {
		byID[c.ID] = c
		for _, sub := range c.Subs {
			byID[sub.ID] = sub
		}
		for _, p := range c.Props {
			if p == prop {
				if c.Thorough && tier != "thorough" {
					skipped++
					continue
				}
				sel = append(sel, proofs(c)...)
				break
			}
		}
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no contract carries property", prop)
		return 2
	}
	var rn runner
	defer rn.close()
	buildErr := make(chan error, 1)
	go func() { buildErr <- rn.build(w) }()

	// the whole check answers within its 900 s
	const budget = 640 * time.Second
	searchUntil := t0.Add(budget + 120*time.Second)
	// optimistic use of contracts, until every used one is proved
	bad := map[string]bool{}
	why := map[string]string{}
	results := map[string]*VCResult{}
	todo := sel
	known := knownFindings()
	built, berr := false, error(nil)
	isLabelled := map[string]bool{}
	for _, c := range sel {
		isLabelled[c.ID] = true
	}
	// while the proofs run, the models of failed obligations are replayed, and
	// conditions that could not be proved are searched: as soon as a failing
	// input is known nothing else needs to be proved
	hunt := newHunt(w, &rn, prop, known, isLabelled, seed, func() error {
		if !built {
			built, berr = true, <-buildErr
		}
		return berr
	})
	for round := 0; len(todo) > 0 && round < 8; round++ {
		for id, r := range w.runAll(todo, bad, byFn, limit, t0.Add(budget)) {
			results[id] = r
			if verbose {
				printResult(w, r)
			}
		}
		todo = nil
		if w.stop.Load() {
			break
		}
		for changed := true; changed; {
			changed = false
			for _, r := range sortedRes(results) {
				if r.C.Func != "" && !bad[r.C.baseID()] && (r.Status != "proved" || r.Run.unshared) {
					bad[r.C.baseID()] = true
					why[r.C.baseID()] = r.Status + " " + r.Reason
					changed = true
				}
			}
		}
		need := map[string]bool{}
		for _, r := range sortedRes(results) {
			if r.Run == nil {
				continue
			}
			for u := range r.Run.used {
				if bad[u] {
					need[r.C.ID] = true
				} else {
					for _, p := range proofs(byID[u]) {
						if results[p.ID] == nil {
							need[p.ID] = true
						}
					}
				}
			}
		}
		for id := range need {
			todo = append(todo, byID[id])
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].ID < todo[j].ID })
	}
	hunt.close()
	if !built {
		berr = <-buildErr
	}
	if berr != nil {
		fmt.Fprintln(os.Stderr, berr)
		return 2
	}
	// verdicts
	var reps []replayFile
	labelled := map[string]bool{}
	for _, c := range sel {
		labelled[c.ID] = true
	}
	witnesses, native := 0, 0
	for _, r := range sortedRes(results) {
		if !labelled[r.C.ID] {
			continue
		}
		rep := replayFile{Property: prop, Condition: r.C.ID, Rerun: "engine/engine replay <this file>", Kind: r.Status, Message: r.Reason}
		seeds := [][]string{}
		if r.Run != nil {
			seeds = r.Run.seeds
		}
		if r.Reason == notRerun && (hunt.found == nil || hunt.found.c != r.C) {
			continue
		}
		if w.stop.Load() && r.Status == "proved" {
			continue
		}
		switch r.Status {
		case "proved":
			// the witnesses of the paths, on the real code: this checks the
			// models of the library functions, not the proof
			lim := seeds
			if len(lim) > 150 && tier == "quick" {
				lim = lim[:150]
			}
			witnesses += len(lim)
			a, res, n := rn.search(r.C, lim, seed, 20*time.Second, len(lim), runtime.NumCPU(), nil)
			native += n
			if a == nil && tier == "thorough" && time.Now().Before(searchUntil) {
				// the same with generated arguments
				var g nativeRes
				a, g, n = rn.search(r.C, seeds, seed, 5*time.Second, 20000000, runtime.NumCPU(), nil)
				native += n
				if a != nil {
					res = g
				}
			}
			if a != nil {
				rep.Kind = "witness"
				rep.Obligation = res.Label
				rep.Args, rep.Show = a, showArgs(a)
				rep.Native = res.Status + " " + res.Detail
				rep.Confirmed = true
				reps = append(reps, rep)
			}
			continue
		}
		for _, f := range r.Fails {
			res := rn.run(r.C.ID, f.Args)
			native++
			rep.Kind, rep.Obligation, rep.Where, rep.Message = f.Kind, f.Label, f.Where, f.Msg
			rep.Args, rep.Show = f.Args, f.Show
			rep.Native = res.Status + " " + res.Label + " " + res.Detail
			rep.Verifier = "failed obligation " + f.Label + " under the path condition\n" + f.PC
			if f.Unknown {
				rep.Message += " (the solvers give no answer)"
			}
			if res.fails() {
				rep.Confirmed = true
				break
			}
		}
		if f := hunt.found; f != nil && f.c == r.C && !rep.Confirmed {
			rep.Obligation, rep.Args, rep.Show = f.res.Label, f.args, showArgs(f.args)
			rep.Native = f.res.Status + " " + f.res.Label + " " + f.res.Detail
			rep.Confirmed = true
		}
		reps = append(reps, rep)
	}
	// what no model of the solvers shows is searched for, until one failing
	// input of the property is known
	confirmed := false
	for i := range reps {
		confirmed = confirmed || reps[i].Confirmed
	}
	open := 0
	for i := range reps {
		if !reps[i].Confirmed {
			open++
		}
	}
	for i := range reps {
		rep := &reps[i]
		if rep.Confirmed || confirmed {
			continue
		}
		r := results[rep.Condition]
		var seeds [][]string
		for _, f := range r.Fails {
			seeds = append(seeds, f.Args)
		}
		if r.Run != nil {
			seeds = append(seeds, r.Run.seeds...)
		}
		seeds = append(seeds, variants(seeds)...)
		lim := time.Until(searchUntil) / time.Duration(open)
		if lim > 45*time.Second {
			lim = 45 * time.Second
		}
		open--
		a, res, n := rn.search(r.C, seeds, seed, lim, 20000000, runtime.NumCPU(), nil)
		native += n
		if a != nil {
			rep.Obligation = res.Label
			rep.Args, rep.Show = a, showArgs(a)
			rep.Native = res.Status + " " + res.Label + " " + res.Detail
			rep.Confirmed = true
			confirmed = true
		}
	}
	sort.SliceStable(reps, func(i, j int) bool { return reps[i].Confirmed && !reps[j].Confirmed })
	// report
	code := 0
	nviol := 0
	confirmedNew := false
	for i, rep := range reps {
		p := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", prop, i+1))
		b, _ := json.MarshalIndent(rep, "", "  ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: %s %s %s %s native: %s\n", rep.Condition, rep.Kind, rep.Obligation, rep.Message, strings.Join(rep.Show, " "), rep.Native)
		if k := known.match(prop, rep); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		nviol++
		code = 1
		s := ""
		if !rep.Confirmed {
			if confirmedNew {
				// the failing input of another obligation shows the violation
				fmt.Printf("%s: not discharged either, see %s\n", rep.Condition, p)
				continue
			}
			s = " no-failing-input-found"
		} else {
			confirmedNew = true
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, p, s)
		code = 1
	}
	writeEvidence(w, prop, tier, seed, sel, results, bad, why, t0, nviol, witnesses, native, skipped)
	if code == 0 {
		fmt.Printf("property %s: held; %d conditions, %d auxiliary contracts, %v\n", prop, len(sel), len(results)-len(sel), time.Since(t0).Round(time.Millisecond))
	}
	return code
}

// variants are the arguments with a line end after, a space before or after one
// of the strings.
func variants(seeds [][]string) [][]string {
	var out [][]string
	for n, s := range seeds {
		if n == 60 {
			break
		}
		for i, a := range s {
			if !strings.HasPrefix(a, "[") || !strings.HasSuffix(a, "]") || len(a) < 3 {
				continue
			}
			for _, v := range []string{a[:len(a)-1] + ",10]", a[:len(a)-1] + ",32]", "[32," + a[1:], "[10," + a[1:], a[:len(a)-1] + ",10,49,57,56,53]", "[120,10," + a[1:]} {
				t := append([]string{}, s...)
				t[i] = v
				out = append(out, t)
			}
		}
	}
	return out
}

func sortedRes(m map[string]*VCResult) []*VCResult {
	var out []*VCResult
	for _, r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].C.ID < out[j].C.ID })
	return out
}

func (c *Contract) baseID() string {
	if c.Base != nil {
		return c.Base.ID
	}
	return c.ID
}

// ---- known findings

type finding struct{ prop, vc, arg, text string }
type findings []finding

// knownFindings reads lines of the form
//
//	known: property=C01 condition=<id> args=<shown arguments> :: <what fails>
func knownFindings() findings {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out findings
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		var f finding
		f.text = l[i+4:]
		for _, w := range strings.SplitN(l[7:i], " ", 3) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case strings.HasPrefix(w, "condition="):
				f.vc = w[10:]
			case strings.HasPrefix(w, "args="):
				f.arg = w[5:]
			}
		}
		out = append(out, f)
	}
	return out
}

func (fs findings) match(prop string, rep replayFile) string {
	for _, f := range fs {
		if f.prop == prop && f.vc == rep.Condition && f.arg == strings.Join(rep.Show, " ") && rep.Confirmed {
			return f.text
		}
	}
	return ""
}

// ---- evidence

func writeEvidence(w *World, prop, tier string, seed int64, sel []*Contract, results map[string]*VCResult, bad map[string]bool, why map[string]string, t0 time.Time, nviol, witnesses, native, skipped int) {
	labelled := map[string]bool{}
	for _, c := range sel {
		labelled[c.ID] = true
	}
	obl, dis, bObl, bDis, aux, auxDis := 0, 0, 0, 0, 0, 0
	trivial, solver := 0, 0
	var conds []map[string]interface{}
	var fns []string
	st := SolverStats{}
	steps, paths := 0, 0
	var bounds []string
	for _, r := range sortedRes(results) {
		m := map[string]interface{}{"condition": r.C.ID, "status": r.Status, "paths": r.Paths, "solver_s": round(r.Stats.Time), "total_s": round(r.Dur), "queries": r.Stats.Queries}
		if r.Reason != "" {
			m["reason"] = r.Reason
		}
		if r.C.Bounded != "" {
			m["bounded"] = r.C.Bounded
			bounds = append(bounds, r.C.ID+": "+r.C.Bounded)
		}
		if r.C.Note != "" {
			m["note"] = r.C.Note
		}
		if r.C.Func != "" {
			fns = append(fns, strings.TrimPrefix(fnName(r.C), modPath+"/"))
		}
		m["labelled"] = labelled[r.C.ID]
		if bad[r.C.baseID()] {
			m["dropped"] = why[r.C.baseID()]
		}
		no, nd := 0, 0
		if r.Run != nil {
			for _, l := range r.labels() {
				o := r.Run.obls[l]
				k := o.Paths
				if k == 0 && o.Failed > 0 {
					k = o.Failed
				}
				no += k
				nd += k - o.Failed
				trivial += o.Trivial
				solver += o.Solver
			}
			var us []string
			for u := range r.Run.used {
				us = append(us, u)
			}
			sort.Strings(us)
			if len(us) > 0 {
				m["uses_contracts"] = us
			}
		}
		if r.Status != "proved" {
			if no == 0 {
				no = 1
			}
			if nd == no {
				nd = no - 1
			}
		}
		m["obligations"], m["discharged"] = no, nd
		switch {
		case !labelled[r.C.ID]:
			aux += no
			auxDis += nd
		case r.C.Bounded != "":
			bObl += no
			bDis += nd
		default:
			obl += no
			dis += nd
		}
		st.Queries += r.Stats.Queries
		st.CacheHits += r.Stats.CacheHits
		st.ModelHits += r.Stats.ModelHits
		st.Time += r.Stats.Time
		for k, v := range r.Stats.ByBackend {
			if st.ByBackend == nil {
				st.ByBackend = map[string]int{}
			}
			st.ByBackend[k] += v
		}
		steps += r.Steps
		paths += r.Paths
		conds = append(conds, m)
	}
	cov := map[string]interface{}{
		"obligations":              obl,
		"discharged":               dis,
		"bounded_obligations":      bObl,
		"bounded_discharged":       bDis,
		"auxiliary_obligations":    aux,
		"auxiliary_discharged":     auxDis,
		"checker_cmd":              "engine/engine check " + prop,
		"trusted_base":             trustedBase(w),
		"conditions":               conds,
		"functions_under_contract": fns,
		"functions_executed":       w.funcs(),
		"paths":                    paths,
		"ssa_instructions":         steps,
		"discharged_by_evaluation": trivial,
		"discharged_by_solver":     solver,
		"solver_queries":           st.Queries,
		"solver_cache_hits":        st.CacheHits,
		"decisions_by_model":       st.ModelHits,
		"solver_answers_by":        st.ByBackend,
		"solver_s":                 round(st.Time),
		"native_runs":              native,
		"path_witnesses_replayed":  witnesses,
		"thorough_only_skipped":    skipped,
		"detached_contracts":       detached,
	}
	if len(bounds) > 0 {
		cov["bounds"] = bounds
	}
	level := "proof"
	if obl == 0 && bObl > 0 {
		level = "other" // bounded
		cov["explored"] = "all inputs within the bounds listed under bounds, symbolically"
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assumptions(), "wall_s": round(time.Since(t0)), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func trustedBase(w *World) []string {
	out := []string{"engine (SSA semantics, string and regular-expression reasoning)", "golang.org/x/tools/go/ssa", "SMT solvers z3-new, z3, cvc5"}
	w.gmu.Lock()
	defer w.gmu.Unlock()
	var ms []string
	for m := range w.used {
		ms = append(ms, "model of "+m)
	}
	sort.Strings(ms)
	return append(out, ms...)
}

func assumptions() []string {
	return []string{
		"the models of the standard library functions listed in trusted_base describe them (the path witnesses are replayed on the real code, and engine selftest compares the models with the library)",
		"the days-from-civil function is axiomatised by lemmas on month and year steps; selftest checks them on every month of the range",
		"memory exhaustion, stack overflow and data races with other packages are outside of the model",
	}
}

func cmdReplay(args []string) {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: engine replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rep replayFile
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w, _, _, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rn runner
	defer rn.close()
	if err := rn.build(w); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println(rep.Condition, rep.Show)
	fmt.Println(rn.run(rep.Condition, rep.Args))
}
