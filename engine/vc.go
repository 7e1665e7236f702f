package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// VCRun is the run of one verification condition.
type VCRun struct {
	c        *Contract
	fn       *ssa.Function
	noMerge  bool
	obls     map[string]*Obl
	fails    []*Failure
	maxFail  int
	used     map[string]bool // contracts used at call sites
	bad      map[string]bool // contracts not to be used
	params   []Val
	pstate   *State
	wit      []map[int]string
	seeds    [][]string // concrete arguments of explored paths, as JSON
	noSeeds  bool
	unshared bool // the contract shares memory in another way than the function
	forks    int
}

type Obl struct {
	Label   string
	Paths   int // times the obligation was generated
	Trivial int // discharged by evaluation
	Solver  int // discharged by the solver
	Failed  int
}

type Failure struct {
	Kind    string // ensures, panic, frame, undecided
	Label   string
	Msg     string
	Where   string
	Args    []string // concrete arguments, as JSON
	Show    []string
	PC      string
	Unknown bool
}

type VCResult struct {
	C      *Contract
	Run    *VCRun
	Status string // proved, refuted, undecided
	Reason string
	Fails  []*Failure
	Paths  int
	Steps  int
	Stats  SolverStats
	Dur    time.Duration
	Safety int
}

func (v *VCRun) obl(label string) *Obl {
	o := v.obls[label]
	if o == nil {
		o = &Obl{Label: label}
		v.obls[label] = o
	}
	return o
}

// fail records a failed obligation on the path st, where cond holds.
func (v *VCRun) fail(x *Ex, st *State, kind, msg string, cond *Term) {
	f := &Failure{Kind: kind, Msg: msg, Label: kind}
	v.record(x, st, f, cond)
}

func (v *VCRun) record(x *Ex, st *State, f *Failure, cond *Term) {
	v.obl(f.Label).Failed++
	n := 0
	for _, g := range v.fails {
		if g.Label == f.Label {
			n++
		}
	}
	if n >= v.maxFail {
		return
	}
	q := append(append([]*Term{}, st.pc...), cond)
	r, m := x.s.run(q)
	if r == Unsat {
		v.obl(f.Label).Failed--
		return
	}
	if r == Unknown {
		f.Unknown = true
		m = st.model
	}
	f.PC = st.describe()
	f.Args, f.Show = v.concrete(x, st, m)
	v.fails = append(v.fails, f)
	if f.Unknown {
		return
	}
	if x.w.onFail != nil {
		x.w.onFail(v.c, f)
	}
	if v.c.Func != "" && len(v.c.Props) == 0 {
		// a contract that does not hold is of no use
		panic(timeoutErr{})
	}
}

// check generates an obligation.
func (v *VCRun) check(x *Ex, st *State, label string, cond *Term) {
	o := v.obl(label)
	o.Paths++
	if cond.isTrue() || st.hasPC(cond) {
		o.Trivial++
		return
	}
	if os.Getenv("DBGCHECK") != "" {
		fmt.Println("CHECK", label, cond, ivs(cond))
	}
	parts := []*Term{cond}
	if cond.op == OAnd {
		parts = cond.args
	}
	for _, p := range parts {
		if st.hasPC(p) {
			continue
		}
		neg := x.c.Not(p)
		r, _ := x.s.Check(st.pc, neg)
		if r == Unsat {
			st.known = append(st.known, p)
			continue
		}
		f := &Failure{Kind: "ensures", Label: label, Unknown: r == Unknown}
		v.record(x, st, f, neg)
		if o.Failed > 0 {
			// go on where it holds
			x.assumeTerm(st, cond)
			return
		}
	}
	o.Solver++
}

// concrete evaluates the parameters in a model.
func (v *VCRun) concrete(x *Ex, st *State, m Model) (js, show []string) {
	for i, p := range v.params {
		j, s := x.concVal(st, m, p, v.fn.Params[i].Type())
		js = append(js, j)
		show = append(show, v.fn.Params[i].Name()+"="+s)
	}
	return
}

func (x *Ex) evalDef(m Model, t *Term) *big.Int {
	full := make(Model, len(m))
	for k, v := range m {
		full[k] = v
	}
	for _, l := range x.c.leaves(t) {
		if _, ok := full[l.id]; ok {
			continue
		}
		v := new(big.Int)
		if l.op == OUF && l.name == "days0" {
			y, m0 := x.evalDef(m, l.args[0]), x.evalDef(m, l.args[1])
			if m0.Sign() > 0 && m0.Cmp(big.NewInt(12)) <= 0 && y.IsInt64() {
				v.SetInt64(days0Const(y.Int64(), m0.Int64()))
			}
		} else if s, ok := x.csets[l.id]; ok && len(s) > 0 {
			v.SetInt64(int64(s[0].lo))
			// prefer printable characters
			for _, r := range s {
				if r.hi >= '0' && r.lo <= '~' {
					w := int64('0')
					if int64(r.lo) > w {
						w = int64(r.lo)
					}
					v.SetInt64(w)
					break
				}
			}
		} else if !l.iv.loInf && l.iv.lo > 0 {
			v.SetInt64(l.iv.lo)
		} else if !l.iv.hiInf && l.iv.hi < 0 {
			v.SetInt64(l.iv.hi)
		}
		full[l.id] = v
	}
	r, ok := x.c.eval(t, full, map[int]bigInt{})
	if !ok {
		return new(big.Int)
	}
	return r
}

func (x *Ex) concStr(st *State, m Model, s Str) string {
	s = st.norm(s)
	var out []int32
	for _, a := range s.a {
		switch a.kind {
		case ALit:
			out = append(out, symsOf(a.lit)...)
		case AChar:
			out = append(out, int32(x.evalDef(m, a.t).Int64()))
		case ASeg:
			n := x.evalDef(m, a.t).Int64()
			if n > 2000 {
				n = 2000
			}
			if len(a.set) > 0 {
				sym := a.set[0].lo
				for _, r := range a.set {
					if r.hi >= '0' && r.lo <= 'z' {
						sym = r.lo
						if sym < '0' {
							sym = '0'
						}
						break
					}
				}
				for i := int64(0); i < n; i++ {
					out = append(out, sym)
				}
			}
		case ALang:
			if d, ok := st.langs[a.id]; ok {
				w, _ := d.shortest()
				out = append(out, symsOf(w)...)
			}
		case AFmt:
			out = append(out, symsOf(zpad(x.evalDef(m, a.t), max(a.width, 1)))...)
		}
	}
	return symString(out)
}

func (x *Ex) concVal(st *State, m Model, v Val, t types.Type) (string, string) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := x.concStr(st, m, v.(Str))
			var sb strings.Builder
			sb.WriteByte('[')
			for i := 0; i < len(s); i++ {
				if i > 0 {
					sb.WriteByte(',')
				}
				fmt.Fprintf(&sb, "%d", s[i])
			}
			return sb.String() + "]", fmt.Sprintf("%q", s)
		case u.Info()&types.IsBoolean != 0:
			s := fmt.Sprint(x.evalDef(m, v.(*Term)).Sign() != 0)
			return s, s
		case u.Info()&types.IsInteger != 0:
			s := x.evalDef(m, v.(*Term)).String()
			return s, s
		}
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok || p.obj == 0 {
			return "null", "nil"
		}
		// the value the object had at the beginning
		o, _ := x.vc.pstate.get(p.obj)
		return x.concVal(st, m, o, u.Elem())
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			return "null", "?"
		}
		var parts []string
		for i := 0; i < u.NumFields(); i++ {
			j, _ := x.concVal(st, m, s.f[i], u.Field(i).Type())
			if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				_, j = x.concVal(st, m, s.f[i], u.Field(i).Type())
			}
			parts = append(parts, fmt.Sprintf("%q:%s", u.Field(i).Name(), j))
		}
		r := "{" + strings.Join(parts, ",") + "}"
		return r, r
	}
	return "null", "?"
}

// param makes a symbolic value of type t.
func (x *Ex) param(st *State, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return x.langStr(st, classStar(allSyms))
		case u.Info()&types.IsBoolean != 0:
			return x.c.Var(name, SBool, fullIv)
		case u.Kind() == types.Uint32:
			return x.c.Var(name, SBV, fullIv)
		case u.Info()&types.IsInteger != 0:
			v := x.c.Var(name, SInt, typeIval(t))
			if lo, hi, bits, _ := intRange(t); bits != 0 {
				// the bounds of 64-bit types do not fit the interval
				x.assumeTerm(st, x.c.And(x.c.Le(x.c.Big(lo), v), x.c.Le(v, x.c.Big(hi))))
			}
			return v
		}
	case *types.Pointer:
		if x.choose(st, 2) == 0 {
			return Ptr{}
		}
		return Ptr{obj: x.newObj(st, x.param(st, name, u.Elem()))}
	case *types.Struct:
		if isTimeTime(t) {
			break
		}
		s := Struct{make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.param(st, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	}
	unsup("parameter of type %v", t)
	return nil
}

// NewEx makes an executor whose packages are initialized.
func (w *World) NewEx() (*Ex, *State, error) {
	c := NewTCtx()
	x := &Ex{c: c, s: NewSolver(c), prog: w.prog, w: w, infos: map[*ssa.Function]*fnInfo{}, active: map[string]bool{}, csets: map[int]RSet{}, segIDs: map[string]int{}, deadl: time.Now().Add(5 * time.Minute)}
	x.s.csets = x.csets
	st := &State{heap: &layer{m: map[int]Val{}}, subst: map[int]Str{}, langs: map[int]*DFA{}, model: Model{}}
	x.initing = true
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					err = fmt.Errorf("package initialization: %s", u.msg)
					return
				}
				panic(r)
			}
		}()
		for _, p := range w.inits {
			f := p.Func("init")
			if f == nil {
				continue
			}
			outs := x.call(st, f, nil, nil)
			if len(outs) != 1 {
				unsup("%d outcomes of %s", len(outs), f)
			}
			if outs[0].panic != nil {
				unsup("%s panics: %s", f, outs[0].panic.msg)
			}
			st = outs[0].st
		}
	}()
	x.initing = false
	x.baseObj = x.nobj
	st.heap = &layer{m: flatAll(st.heap), depth: 0}
	st.heap = &layer{m: map[int]Val{}, parent: st.heap, depth: 1}
	st.epoch = x.nobj + 1
	x.nsteps = 0
	return x, st, err
}

func flatAll(l *layer) map[int]Val {
	m := map[int]Val{}
	var ls []*layer
	for ; l != nil; l = l.parent {
		ls = append(ls, l)
	}
	for i := len(ls) - 1; i >= 0; i-- {
		for k, v := range ls[i].m {
			m[k] = v
		}
	}
	return m
}

// runVC verifies one condition.
func (w *World) runVC(c *Contract, bad map[string]bool, contracts map[string]*Contract, limit time.Duration, trace bool) (res *VCResult) {
	t0 := time.Now()
	res = &VCResult{C: c, Status: "undecided"}
	pkg := w.pkgs[vcPkgPath(c.Pkg)]
	if pkg == nil || pkg.Func(c.VC) == nil {
		res.Reason = "condition not found"
		return res
	}
	fn := pkg.Func(c.VC)
	x, st, err := w.NewEx()
	defer func() {
		res.Dur = time.Since(t0)
		res.Stats = x.s.stats
		res.Steps = x.nsteps
		res.Safety = x.safety
		x.s.Close()
	}()
	if err != nil {
		res.Reason = err.Error()
		return res
	}
	x.trace = trace
	x.deadl = t0.Add(limit)
	run := &VCRun{c: c, fn: fn, obls: map[string]*Obl{}, maxFail: 3, used: map[string]bool{}, bad: bad}
	x.vc = run
	x.contracts = contracts
	res.Run = run
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Reason = "not supported: " + r.msg
			case timeoutErr:
				res.Reason = fmt.Sprintf("no result within %v", limit)
			case infeasible:
				res.Reason = "internal: infeasible state outside of a path"
			default:
				panic(r)
			}
			res.Status = "undecided"
			res.Fails = run.fails
			if len(realFails(run.fails)) > 0 {
				res.Status = "refuted"
			}
		}
	}()
	// parameters
	base := &frame{fn: fn, fi: x.info(fn), st: st}
	type start struct {
		st     *State
		params []Val
	}
	var starts []start
	x.fork(base, func(g *frame) {
		var ps []Val
		for _, p := range fn.Params {
			ps = append(ps, x.param(g.st, p.Name(), p.Type()))
		}
		s := g.st.clone()
		s.trail, s.trails, s.tpos = nil, nil, 0
		starts = append(starts, start{s, ps})
	}, nil)
	for _, s := range starts {
		run.params = s.params
		run.pstate = s.st.clone()
		outs := x.call(s.st, fn, append([]Val{}, s.params...), nil)
		for _, o := range outs {
			res.Paths++
			if o.panic != nil {
				f := &Failure{Kind: "panic", Label: c.ID + "/no-panic", Msg: o.panic.msg, Where: w.pos(o.pos) + " in " + o.wher}
				run.record(x, o.st, f, x.c.T)
			} else if !run.noSeeds && len(run.seeds) < 400 {
				m := o.st.model
				if m == nil {
					if r, mm := x.s.run(o.st.pc); r == Sat {
						m = mm
					} else if r == Unsat {
						continue
					}
				}
				js, _ := run.concrete(x, o.st, m)
				run.seeds = append(run.seeds, js)
			}
		}
	}
	run.obl(c.ID + "/no-panic").Paths = res.Paths
	res.Fails = run.fails
	switch {
	case len(realFails(run.fails)) > 0:
		res.Status = "refuted"
	case len(run.fails) > 0:
		res.Status = "undecided"
		res.Reason = "the solver gives no answer for " + run.fails[0].Label
	case res.Paths == 0:
		res.Status = "undecided"
		res.Reason = "no execution satisfies the assumptions (vacuous)"
	default:
		res.Status = "proved"
		for _, cl := range c.Clauses {
			_ = cl
		}
	}
	return res
}

func realFails(fs []*Failure) []*Failure {
	var out []*Failure
	for _, f := range fs {
		if !f.Unknown {
			out = append(out, f)
		}
	}
	return out
}

func (r *VCResult) labels() []string {
	var ls []string
	for l := range r.Run.obls {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return ls
}

// ---- contracts at call sites

// callContract replaces a call by the contract of the function.
func (x *Ex) callContract(st *State, f *ssa.Function, args []Val) ([]Outcome, bool) {
	if x.contracts == nil || x.vc == nil || f.Pkg == nil {
		return nil, false
	}
	c := x.contracts[f.String()]
	if c == nil || !c.hasReturns || x.vc.bad[c.ID] || c.Func == x.vc.c.Func && c.Pkg == x.vc.c.Pkg || x.inSpec > 0 {
		return nil, false
	}
	if c.Opaque && !x.vc.c.abstracts(c.ID) {
		return nil, false
	}
	pkg := x.w.pkgs[vcPkgPath(c.Pkg)]
	req, ret := pkg.Func(c.REQ), pkg.Func(c.RET)
	if req == nil || ret == nil {
		return nil, false
	}
	x.vc.used[c.ID] = true
	rargs := args
	if c.Opaque {
		rs := f.Signature.Results()
		rargs = append([]Val{}, args...)
		for i := 0; i < rs.Len(); i++ {
			rargs = append(rargs, x.zero(rs.At(i).Type()))
		}
		x.atSite++
		defer func() { x.atSite-- }()
	}
	var outs []Outcome
	x.inSpec++
	defer func() { x.inSpec-- }()
	for _, o := range x.call(st, req, args, nil) {
		if o.panic != nil {
			unsup("precondition of %s panics: %s", c.ID, o.panic.msg)
		}
		t := o.ret.(*Term)
		fr := &frame{fn: f, st: o.st}
		fs, _ := x.fork(fr, func(g *frame) {
			if x.decide(g.st, t) {
				g.idx = 1
			} else {
				g.idx = 0
			}
		}, nil)
		for _, g := range fs {
			if g.idx == 1 {
				n := x.nobj
				outs = append(outs, x.call(g.st, ret, rargs, nil)...)
				if c.Readonly {
					x.ro = append(x.ro, [2]int{n + 1, x.nobj})
				}
			} else {
				// outside of the contract: the body
				x.inSpec--
				n := x.atSite
				x.atSite = 0
				outs = append(outs, x.call(g.st, f, args, nil)...)
				x.atSite = n
				x.inSpec++
			}
		}
	}
	return outs, true
}

// ---- intrinsics

func (x *Ex) errKind(v Iface) string {
	if v.t == nil {
		return ""
	}
	if p, ok := v.t.(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath {
			switch n.Obj().Name() {
			case "NotSetError", "NotImplementedError", "InvalidError", "UnsupportedError", "UnrecognizedError":
				return n.Obj().Name()
			}
		}
	}
	return "other"
}

// isoMap relates the memory of two equal values: a contract can stand for a
// function at call sites only when it shares memory the way the function does.
type isoMap struct {
	fwd, bwd map[int]int
	bad      bool
	old      bool // the function returns memory that it did not allocate
}

func (m *isoMap) pair(a, b int) {
	if x, ok := m.fwd[a]; ok && x != b {
		m.bad = true
	}
	if x, ok := m.bwd[b]; ok && x != a {
		m.bad = true
	}
	m.fwd[a], m.bwd[b] = b, a
}

func isErrType(t types.Type) bool {
	return t != nil && types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

// same is deep equality; t is the static type.
func (x *Ex) same(st *State, a, b Val, t types.Type, depth int) *Term {
	c := x.c
	if depth > 40 {
		unsup("deep structure")
	}
	switch va := a.(type) {
	case Iface:
		vb, ok := b.(Iface)
		if !ok {
			return c.F
		}
		if va.t == nil || vb.t == nil {
			return c.Bool(va.t == nil && vb.t == nil)
		}
		if isErrType(va.t) && isErrType(vb.t) {
			return c.Bool(x.errKind(va) == x.errKind(vb))
		}
		if !types.Identical(va.t, vb.t) {
			return c.F
		}
		return x.same(st, va.v, vb.v, va.t, depth+1)
	case Ptr:
		vb, ok := b.(Ptr)
		if !ok {
			return c.F
		}
		if x.iso != nil && va.obj != 0 && vb.obj != 0 {
			x.iso.pair(va.obj, vb.obj)
			if va.obj <= x.baseObj && vb.obj > x.baseObj {
				x.iso.old = true
			}
		}
		if va == vb {
			return c.T
		}
		if va.obj == 0 || vb.obj == 0 {
			return c.F
		}
		var et types.Type
		if p, ok := t.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		}
		return x.same(st, x.load(st, va), x.load(st, vb), et, depth+1)
	case Slice:
		vb, ok := b.(Slice)
		if !ok || va.len != vb.len {
			return c.F
		}
		ea, eb := x.elems(st, va), x.elems(st, vb)
		var cs []*Term
		for i := range ea {
			r := x.same(st, ea[i], eb[i], t.Underlying().(*types.Slice).Elem(), depth+1)
			if r.isFalse() {
				return r
			}
			cs = append(cs, r)
		}
		return c.And(cs...)
	case Struct:
		vb, ok := b.(Struct)
		if !ok || len(va.f) != len(vb.f) {
			return c.F
		}
		var cs []*Term
		for i := range va.f {
			var ft types.Type = types.Typ[types.Invalid]
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			}
			r := x.same(st, va.f[i], vb.f[i], ft, depth+1)
			if r.isFalse() {
				return r
			}
			cs = append(cs, r)
		}
		return c.And(cs...)
	case TimeV:
		vb, ok := b.(TimeV)
		if !ok {
			return c.F
		}
		_, eq := x.instCmp(va, vb)
		oa, ob := va.zone.off, vb.zone.off
		if va.zone.kind == 2 || vb.zone.kind == 2 {
			return c.And(eq, c.Bool(va.zone.kind == vb.zone.kind))
		}
		return c.And(eq, c.Eq(oa, ob))
	}
	return x.equal(st, a, b)
}

// reachable collects the objects reachable from a value.
func (x *Ex) reachable(st *State, v Val, seen map[int]bool) {
	switch v := v.(type) {
	case Ptr:
		if v.obj == 0 || seen[v.obj] {
			return
		}
		seen[v.obj] = true
		o, _ := st.get(v.obj)
		x.reachable(st, o, seen)
	case Slice:
		if v.obj == 0 || seen[v.obj] {
			return
		}
		seen[v.obj] = true
		o, _ := st.get(v.obj)
		x.reachable(st, o, seen)
	case MapRef:
		if v.obj == 0 || seen[v.obj] {
			return
		}
		seen[v.obj] = true
		if md, ok := func() (MapData, bool) { o, _ := st.get(v.obj); m, ok := o.(MapData); return m, ok }(); ok {
			for i := range md.keys {
				x.reachable(st, md.keys[i], seen)
				x.reachable(st, md.vals[i], seen)
			}
		}
	case Iface:
		if v.t != nil {
			x.reachable(st, v.v, seen)
		}
	case Struct:
		for _, f := range v.f {
			x.reachable(st, f, seen)
		}
	case Tuple:
		for _, f := range v {
			x.reachable(st, f, seen)
		}
	case Fn:
		for _, f := range v.bind {
			x.reachable(st, f, seen)
		}
	}
}

// readonly: the contract says nothing about which parts of the result share
// memory; callers may neither write to it nor compare pointers into it.
func (c *Contract) readonly() bool {
	return c.Readonly || c.Base != nil && c.Base.Readonly
}

// isRO tells whether memory belongs to the result of a readonly contract.
func (x *Ex) isRO(obj int) bool {
	for _, r := range x.ro {
		if r[0] <= obj && obj <= r[1] {
			return true
		}
	}
	return false
}

func (c *Contract) abstracts(id string) bool {
	for _, a := range c.Abstracts {
		if a == id {
			return true
		}
	}
	return false
}

// some is the value of a component of a result that a contract leaves open: a
// function of the arguments at call sites, the value itself in the condition of
// the function.
func (x *Ex) some(st *State, a []Val, mk func(name string) *Term, chk func(*Term) *Term) Val {
	name := needLit(st, a[0], "name")
	key := someKey(st, a[1])
	if x.atSite > 0 {
		t := mk("some!" + name + "!" + key)
		if x.somes == nil {
			x.somes = map[string]map[string]func(string) *Term{}
		}
		if x.somes[key] == nil {
			x.somes[key] = map[string]func(string) *Term{}
		}
		x.somes[key][name] = mk
		if chk != nil {
			x.assumeTerm(st, chk(t))
		}
		return t
	}
	t := x.witness(st, a).(*Term)
	if chk != nil {
		x.vc.check(x, st, x.vc.c.ID+"/range of "+name, chk(t))
	}
	return t
}

// someKey identifies a string. A variable keeps its identity whatever becomes
// known about it.
func someKey(st *State, v Val) string {
	s, ok := v.(Str)
	if ok && len(s.a) == 1 && s.a[0].kind == ALang {
		// variables known to be equal are one variable
		for {
			d, ok := st.subst[s.a[0].id]
			if !ok || len(d.a) != 1 || d.a[0].kind != ALang {
				return s.key()
			}
			s = d
		}
	}
	return st.norm(str(st, v)).key()
}

// unify records that two variables are equal: so are the values that contracts
// leave open for them.
func (x *Ex) unify(st *State, from, to Atom) {
	fk, tk := Str{[]Atom{from}}.key(), Str{[]Atom{to}}.key()
	var names []string
	for n := range x.somes[fk] {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		mk := x.somes[fk][n]
		x.assumeTerm(st, x.c.Eq(mk("some!"+n+"!"+fk), mk("some!"+n+"!"+tk)))
	}
}

// witness evaluates the function that tells what a component is.
func (x *Ex) witness(st *State, a []Val) Val {
	w := a[len(a)-1].(Fn)
	outs := x.call(st.clone(), w.f, nil, w.bind)
	if len(outs) != 1 {
		unsup("witness with %d outcomes", len(outs))
	}
	if outs[0].panic != nil {
		panic(*outs[0].panic)
	}
	return outs[0].ret
}

// holds evaluates a condition of the specification as one term: the
// disjunction over its executions. Branches are not checked for feasibility.
func (x *Ex) holds(st *State, f Fn) *Term {
	s := st.clone()
	s.trail, s.trails, s.tpos = nil, nil, 0
	n, ns, nn := len(s.pc), len(s.subst), len(s.neq)
	x.lazy++
	outs := x.call(s, f.f, nil, f.bind)
	x.lazy--
	var alt []*Term
	for _, o := range outs {
		if o.panic != nil {
			unsup("panic in a condition of the specification: %s", o.panic.msg)
		}
		if len(o.st.subst) != ns || len(o.st.neq) != nn {
			unsup("a condition of the specification takes a string apart")
		}
		for i := range st.pc {
			if o.st.pc[i] != st.pc[i] {
				unsup("a condition of the specification changed the path condition")
			}
		}
		alt = append(alt, x.c.And(append(append([]*Term{}, o.st.pc[n:]...), trm(o.ret))...))
	}
	return x.c.Or(alt...)
}

func specModels() {
	for n, m := range map[string]modelFn{
		"Assume": func(x *Ex, st *State, a []Val) Val {
			x.assumeTerm(st, trm(a[0]))
			return nil
		},
		"Check": func(x *Ex, st *State, a []Val) Val {
			x.vc.check(x, st, needLit(st, a[0], "label"), trm(a[1]))
			return nil
		},
		"CheckSame": func(x *Ex, st *State, a []Val) Val {
			t := types.NewSlice(types.NewInterfaceType(nil, nil))
			label := needLit(st, a[0], "label")
			x.iso = &isoMap{fwd: map[int]int{}, bwd: map[int]int{}}
			eq := x.same(st, a[1], a[2], t, 0)
			bad := x.iso.bad && !x.vc.c.readonly() || x.iso.old
			x.iso = nil
			x.vc.check(x, st, label, eq)
			if bad {
				x.vc.unshared = true
			}
			return nil
		},
		"Holds": func(x *Ex, st *State, a []Val) Val {
			return x.holds(st, a[0].(Fn))
		},
		"Same": func(x *Ex, st *State, a []Val) Val {
			return x.same(st, a[0], a[1], types.NewInterfaceType(nil, nil), 0)
		},
		"InLang": func(x *Ex, st *State, a []Val) Val {
			r, err := compileRegex(needLit(st, a[1], "regular expression"))
			if err != nil {
				unsup("regular expression: %v", err)
			}
			return x.match(st, r.full, str(st, a[0]))
		},
		"Kind": func(x *Ex, st *State, a []Val) Val {
			k := map[string]int64{"": 0, "NotSetError": 1, "NotImplementedError": 2, "InvalidError": 3, "UnsupportedError": 4, "UnrecognizedError": 5, "other": 6}
			return x.c.Int(k[x.errKind(a[0].(Iface))])
		},
		"Disjoint": func(x *Ex, st *State, a []Val) Val {
			r1, r2 := map[int]bool{}, map[int]bool{}
			x.reachable(st, a[0], r1)
			x.reachable(st, a[1], r2)
			for o := range r1 {
				if r2[o] {
					return x.c.F
				}
			}
			return x.c.T
		},
		"Fresh": func(x *Ex, st *State, a []Val) Val {
			seen := map[int]bool{}
			for _, v := range a {
				r := map[int]bool{}
				x.reachable(st, v, r)
				for o := range r {
					if o <= x.baseObj || seen[o] || x.isRO(o) {
						return x.c.F
					}
					seen[o] = true
				}
			}
			return x.c.T
		},
		"SomeInt": func(x *Ex, st *State, a []Val) Val {
			lo, hi := trm(a[2]), trm(a[3])
			iv := typeIval(types.Typ[types.Int])
			if v, ok := lo.int64(); ok {
				iv.lo, iv.loInf = v, false
			}
			if v, ok := hi.int64(); ok {
				iv.hi, iv.hiInf = v, false
			}
			return x.some(st, a, func(n string) *Term { return x.c.Var(n, SInt, iv) }, func(t *Term) *Term {
				return x.c.And(x.c.Le(lo, t), x.c.Le(t, hi))
			})
		},
		"SomeBool": func(x *Ex, st *State, a []Val) Val {
			return x.some(st, a, func(n string) *Term { return x.c.Var(n, SBool, fullIv) }, nil)
		},
		"SomePrec": func(x *Ex, st *State, a []Val) Val {
			return x.some(st, a, func(n string) *Term { return x.c.Var(n, SBV, fullIv) }, nil)
		},
		"SomeString": func(x *Ex, st *State, a []Val) Val {
			if x.atSite > 0 {
				return Str{[]Atom{{kind: AOpq, tag: "some!" + needLit(st, a[0], "name") + "!" + someKey(st, a[1])}}}
			}
			return x.witness(st, a)
		},
		"Given": func(x *Ex, st *State, a []Val) Val {
			if x.atSite > 0 {
				x.assumeTerm(st, trm(a[1]))
			} else {
				x.vc.check(x, st, x.vc.c.ID+"/"+needLit(st, a[0], "label"), trm(a[1]))
			}
			return nil
		},
		"Freeze": func(x *Ex, st *State, a []Val) Val {
			seen := map[int]bool{}
			for o := range st.frozen {
				seen[o] = true
			}
			for _, v := range x.elems(st, a[0].(Slice)) {
				x.reachable(st, v, seen)
			}
			st.frozen = seen
			return nil
		},
	} {
		models[specPath+"."+n] = m
	}
}

func ivs(t *Term) string {
	s := ""
	for _, a := range t.args {
		s += fmt.Sprint(" ", a.iv, ivs(a))
	}
	return s
}
