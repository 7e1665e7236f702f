package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ex executes SSA symbolically for one verification condition.
type Ex struct {
	c       *TCtx
	s       *Solver
	prog    *ssa.Program
	w       *World
	nobj    int
	nid     int
	infos   map[*ssa.Function]*fnInfo
	vc      *VCRun
	depth   int
	initing bool
	active  map[string]bool // functions whose contract is replaced by their body
	deadl   time.Time
	ndec    int
	somes   map[string]map[string]func(string) *Term
	lazy    int             // in a condition of the specification
	cur     ssa.Instruction // with FORKS only
	nsteps  int
	npaths  int
	trace   bool
	csets   map[int]RSet
	segIDs  map[string]int
	baseObj int
	ro      [][2]int // objects that belong to results of readonly contracts

	contracts map[string]*Contract // by full function name
	inSpec    int
	iso       *isoMap
	atSite    int // evaluating an opaque contract at a call site
	safety    int
	stamp     int
	conflicts []int // objects that recently kept two states from being merged
}

type fnInfo struct {
	num    map[ssa.Value]int
	n      int
	rpo    map[*ssa.BasicBlock]int
	live   [][]bool // live-in registers per block index
	inline bool
}

func (x *Ex) info(f *ssa.Function) *fnInfo {
	if i, ok := x.infos[f]; ok {
		return i
	}
	if !x.initing {
		x.w.useFunc(f)
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, rpo: map[*ssa.BasicBlock]int{}}
	for _, p := range f.Params {
		fi.num[p] = fi.n
		fi.n++
	}
	for _, p := range f.FreeVars {
		fi.num[p] = fi.n
		fi.n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.num[v] = fi.n
				fi.n++
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit the loop exit last successor first so that loops come before exits
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && !seen[f.Recover] {
		dfs(f.Recover)
	}
	for i := range post {
		fi.rpo[post[len(post)-1-i]] = i
	}
	// liveness
	nb := len(f.Blocks)
	use := make([]map[int]bool, nb)
	def := make([]map[int]bool, nb)
	for _, b := range f.Blocks {
		u, d := map[int]bool{}, map[int]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if n, ok := fi.num[*op]; ok && !d[n] {
						u[n] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				if _, phi := in.(*ssa.Phi); phi {
					// phis are assigned on the incoming edge: live-in of the block
					continue
				}
				d[fi.num[v]] = true
			}
		}
		use[b.Index], def[b.Index] = u, d
	}
	fi.live = make([][]bool, nb)
	for i := range fi.live {
		fi.live[i] = make([]bool, fi.n)
		for n := range use[i] {
			fi.live[i][n] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := f.Blocks[bi]
			for _, s := range b.Succs {
				// edge b->s: live-in of s minus its phis, plus phi operands
				pi := predIndex(s, b)
				add := func(n int) {
					if !def[b.Index][n] && !fi.live[b.Index][n] {
						fi.live[b.Index][n] = true
						changed = true
					}
				}
				phis := map[int]bool{}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[fi.num[ph]] = true
					if pi >= 0 && fi.live[s.Index][fi.num[ph]] {
						if n, ok := fi.num[ph.Edges[pi]]; ok {
							add(n)
						}
					}
				}
				for n, l := range fi.live[s.Index] {
					if l && !phis[n] {
						add(n)
					}
				}
			}
		}
	}
	x.infos[f] = fi
	return fi
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

type Outcome struct {
	st    *State
	ret   Val
	panic *goPanic
	pos   token.Pos
	wher  string
}

type frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	st     *State
	regs   []Val
	blk    *ssa.BasicBlock
	idx    int
	defers []deferred
	iters  int
	pnc    *goPanic // panicking while running deferred calls
	recovd bool
}

type deferred struct {
	fn   Val
	meth *types.Func
	args []Val
}

func (f *frame) clone() *frame {
	n := *f
	n.st = f.st.clone()
	n.regs = append([]Val{}, f.regs...)
	n.defers = append([]deferred{}, f.defers...)
	return &n
}

type timeoutErr struct{}

func (x *Ex) timeUp() {
	if x.w.stop.Load() || time.Now().After(x.deadl) {
		panic(timeoutErr{})
	}
}

func (x *Ex) tick() {
	x.nsteps++
	if x.nsteps&255 == 0 && (x.w.stop.Load() || time.Now().After(x.deadl)) {
		panic(timeoutErr{})
	}
}

func (x *Ex) call(st *State, f *ssa.Function, args []Val, bind []Val) []Outcome {
	if x.depth > 100 {
		unsup("recursion too deep in %s", f)
	}
	x.depth++
	defer func() { x.depth-- }()
	if len(f.Blocks) == 0 {
		unsup("no body: %s", f)
	}
	fi := x.info(f)
	fr := &frame{fn: f, fi: fi, st: st, regs: make([]Val, fi.n), blk: f.Blocks[0]}
	for i, p := range f.Params {
		fr.regs[fi.num[p]] = args[i]
	}
	for i, p := range f.FreeVars {
		fr.regs[fi.num[p]] = bind[i]
	}
	pending := map[*ssa.BasicBlock][]*frame{f.Blocks[0]: {fr}}
	var outs []Outcome
	for len(pending) > 0 {
		var best *ssa.BasicBlock
		for b := range pending {
			if best == nil || fi.rpo[b] < fi.rpo[best] {
				best = b
			}
		}
		frs := pending[best]
		delete(pending, best)
		if len(frs) > 1 {
			frs = x.mergeFrames(frs)
		}
		for _, fr := range frs {
			x.runBlock(fr, func(n *frame) {
				pending[n.blk] = append(pending[n.blk], n)
			}, func(o Outcome) { outs = append(outs, o) })
		}
	}
	if len(outs) > 1 {
		outs = x.mergeOutcomes(outs)
	}
	return outs
}

// runBlock executes a frame until it leaves its block.
func (x *Ex) runBlock(fr *frame, next func(*frame), ret func(Outcome)) {
	work := []*frame{fr}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			x.tick()
			in := f.blk.Instrs[f.idx]
			if forkProf != nil {
				x.cur = in
			}
			if x.trace {
				fmt.Fprintf(os.Stderr, "%*s%s %v: %v\n", x.depth, "", f.fn.Name(), f.blk.Index, in)
			}
			switch in := in.(type) {
			case *ssa.Jump:
				x.edge(f, f.blk.Succs[0])
				next(f)
				goto done
			case *ssa.If:
				c := x.eval(f, in.Cond).(*Term)
				fs, _ := x.fork(f, func(g *frame) {
					if x.decide(g.st, c) {
						x.edge(g, g.blk.Succs[0])
					} else {
						x.edge(g, g.blk.Succs[1])
					}
				}, nil)
				for _, g := range fs {
					next(g)
				}
				goto done
			case *ssa.Return:
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = x.eval(f, in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for i, r := range in.Results {
						t[i] = x.eval(f, r)
					}
					v = t
				}
				ret(Outcome{st: f.st, ret: v})
				goto done
			case *ssa.Panic:
				x.doPanic(f, &goPanic{"explicit panic", x.eval(f, in.X)}, in.Pos(), ret, func(g *frame) { work = append(work, g) })
				goto done
			case *ssa.RunDefers:
				if len(f.defers) > 0 {
					d := f.defers[len(f.defers)-1]
					f.defers = f.defers[:len(f.defers)-1]
					// stay on this instruction until none is left
					fs := x.invoke(f, d.fn, d.meth, d.args, in.Pos(), nil, -1, ret, func(g *frame) { work = append(work, g) })
					for _, g := range fs {
						g.idx-- // invoke advances
						work = append(work, g)
					}
					goto done
				}
				f.idx++
			case *ssa.Defer:
				d := deferred{}
				d.fn, d.meth, d.args = x.callee(f, in.Common())
				f.defers = append(f.defers, d)
				f.idx++
			case *ssa.Call:
				fn, meth, args := x.callee(f, in.Common())
				fs := x.invoke(f, fn, meth, args, in.Pos(), in, f.fi.num[in], ret, func(g *frame) { work = append(work, g) })
				if len(fs) == 1 {
					f = fs[0]
					continue
				}
				work = append(work, fs...)
				goto done
			default:
				if x.simple(f, in) {
					f.idx++
					continue
				}
				fs, ps := x.fork(f, func(g *frame) {
					x.instr(g, in)
					g.idx++
				}, in)
				for _, p := range ps {
					x.doPanic(p.f, p.p, in.Pos(), ret, func(g *frame) { work = append(work, g) })
				}
				if len(fs) == 1 {
					f = fs[0]
					continue
				}
				work = append(work, fs...)
				goto done
			}
		}
	done:
	}
}

type panicked struct {
	f *frame
	p *goPanic
}

// fork runs body on copies of f, once for every combination of decisions.
func (x *Ex) fork(f *frame, body func(*frame), in ssa.Instruction) ([]*frame, []panicked) {
	trails := [][]int{nil}
	var out []*frame
	var ps []panicked
	for len(trails) > 0 {
		tr := trails[len(trails)-1]
		trails = trails[:len(trails)-1]
		g := f.clone()
		g.st.trail = tr
		g.st.tpos = 0
		g.st.trails = &trails
		ok, gp := x.guarded(g, body, in)
		g.st.trail, g.st.trails = nil, nil
		if gp != nil {
			ps = append(ps, panicked{g, gp})
		} else if ok {
			out = append(out, g)
		}
		if len(out)+len(ps) > 20000 {
			unsup("too many cases in one instruction")
		}
	}
	return out, ps
}

func (x *Ex) guarded(g *frame, body func(*frame), in ssa.Instruction) (ok bool, gp *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case infeasible:
				ok = false
			case goPanic:
				gp = &r
			case unsupported:
				if in != nil && !strings.Contains(r.msg, " at ") {
					r.msg += " at " + x.w.pos(in.Pos()) + " in " + g.fn.String()
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	body(g)
	return true, nil
}

// doPanic unwinds the frame: deferred calls run, and may recover.
func (x *Ex) doPanic(f *frame, p *goPanic, pos token.Pos, ret func(Outcome), again func(*frame)) {
	if len(f.defers) > 0 {
		unsup("panic in a function with deferred calls: %s (%s)", f.fn, p.msg)
	}
	ret(Outcome{st: f.st, panic: p, pos: pos, wher: f.fn.String()})
}

// edge moves the frame along a control flow edge, assigning phis.
func (x *Ex) edge(f *frame, to *ssa.BasicBlock) {
	from := f.blk
	pi := predIndex(to, from)
	var vals []Val
	var nums []int
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.eval(f, ph.Edges[pi]))
		nums = append(nums, f.fi.num[ph])
	}
	for i, n := range nums {
		f.regs[n] = vals[i]
	}
	f.blk = to
	f.idx = len(nums)
	if f.fi.rpo[to] <= f.fi.rpo[from] {
		f.iters++
		if f.iters > 5000 {
			unsup("loop without a bound in %s", f.fn)
		}
	}
}

func (x *Ex) newObj(st *State, v Val) int {
	x.nobj++
	st.set(x.nobj, v)
	return x.nobj
}

func (x *Ex) newID() int { x.nid++; return x.nid }

func (x *Ex) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return lit(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			if b.Kind() == types.Uint32 {
				return x.c.BV(bi)
			}
			return x.c.Big(bi)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Float{f}
		}
	}
	return Unk{"constant " + c.String()}
}

func (x *Ex) eval(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Fn{f: v}
	case *ssa.Builtin:
		return Fn{b: v}
	case *ssa.Global:
		return x.global(f.st, v)
	}
	n, ok := f.fi.num[v]
	if !ok {
		unsup("value %v", v)
	}
	return f.regs[n]
}

func (x *Ex) global(st *State, g *ssa.Global) Val {
	x.w.gmu.Lock()
	id, ok := x.w.globals[g]
	if !ok {
		x.w.nglob--
		id = x.w.nglob // globals have negative ids
		x.w.globals[g] = id
	}
	x.w.gmu.Unlock()
	if _, ok := st.get(id); !ok {
		st.set(id, x.initGlobal(st, g))
	}
	return Ptr{obj: id}
}

func (x *Ex) initGlobal(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if g.Pkg != nil && !x.w.isRepo(g.Pkg.Pkg.Path()) {
		name := g.Pkg.Pkg.Path() + "." + g.Name()
		switch name {
		case "time.UTC":
			return Loc{0}
		case "time.Local":
			return Loc{2}
		}
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			id := x.w.stdErr(name)
			if _, ok := st.get(id); !ok {
				st.set(id, Struct{[]Val{lit(name)}})
			}
			return Iface{t: x.w.errType(), v: Ptr{obj: id}}
		}
		if strings.HasSuffix(g.Name(), "init$guard") {
			return x.c.F
		}
		return Unk{"global " + name}
	}
	return x.zero(t)
}

// Loc is a *time.Location.
type Loc struct{ kind int }

// ---- memory

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	parts := strings.Split(p[1:], ".")
	out := make([]int, len(parts))
	for i, s := range parts {
		fmt.Sscanf(s, "%d", &out[i])
	}
	return out
}

func subPath(p string, i int) string { return fmt.Sprintf("%s.%d", p, i) }

func (x *Ex) load(st *State, p Ptr) Val {
	if p.obj == 0 {
		panic(goPanic{"nil pointer dereference", nil})
	}
	v, ok := st.get(p.obj)
	if !ok {
		unsup("dangling pointer %v", p)
	}
	for _, i := range splitPath(p.path) {
		s, ok := v.(Struct)
		if !ok {
			unsup("load through %T", v)
		}
		v = s.f[i]
	}
	return v
}

func (x *Ex) store(st *State, p Ptr, v Val) {
	if p.obj == 0 {
		panic(goPanic{"nil pointer dereference", nil})
	}
	x.checkFrame(st, p.obj)
	old, ok := st.get(p.obj)
	if !ok {
		unsup("dangling pointer")
	}
	st.set(p.obj, putPath(old, splitPath(p.path), v))
}

func putPath(old Val, path []int, v Val) Val {
	if len(path) == 0 {
		return v
	}
	s, ok := old.(Struct)
	if !ok {
		unsup("store through %T", old)
	}
	n := Struct{append([]Val{}, s.f...)}
	n.f[path[0]] = putPath(s.f[path[0]], path[1:], v)
	return n
}

// checkFrame: once package initialization is over, the code may only write to
// objects it allocated itself, and to none that the specification froze.
func (x *Ex) checkFrame(st *State, obj int) {
	if x.initing || x.vc == nil {
		return
	}
	if obj < 0 || obj <= x.baseObj {
		x.vc.fail(x, st, "frame", "write to memory that outlives the call (object of package initialization or global)", x.c.T)
		panic(infeasible{})
	}
	if x.isRO(obj) && x.inSpec == 0 {
		unsup("write to the result of a readonly contract")
	}
	if st.frozen[obj] {
		x.vc.fail(x, st, "frame", "write to memory reachable from an argument", x.c.T)
		panic(infeasible{})
	}
}

// ---- instructions

// simple executes instructions that can neither fork nor panic, in place.
func (x *Ex) simple(f *frame, in ssa.Instruction) bool {
	set := func(v ssa.Value, r Val) bool {
		f.regs[f.fi.num[v]] = r
		return true
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return set(in, Ptr{obj: x.newObj(f.st, x.zero(t))})
	case *ssa.FieldAddr:
		if p, ok := x.eval(f, in.X).(Ptr); ok && p.obj != 0 {
			return set(in, Ptr{p.obj, subPath(p.path, in.Field)})
		}
		return false
	case *ssa.Field:
		if s, ok := x.eval(f, in.X).(Struct); ok {
			return set(in, s.f[in.Field])
		}
		return false
	case *ssa.Extract:
		return set(in, x.eval(f, in.Tuple).(Tuple)[in.Index])
	case *ssa.MakeInterface:
		return set(in, Iface{t: in.X.Type(), v: x.eval(f, in.X)})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var o ssa.Value
		if a, ok := in.(*ssa.ChangeInterface); ok {
			o = a.X
		} else {
			o = in.(*ssa.ChangeType).X
		}
		return set(in.(ssa.Value), x.eval(f, o))
	case *ssa.MakeClosure:
		fn := Fn{f: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fn.bind = append(fn.bind, x.eval(f, b))
		}
		return set(in, fn)
	case *ssa.MakeMap:
		return set(in, MapRef{x.newObj(f.st, MapData{})})
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if p, ok := x.eval(f, in.X).(Ptr); ok && p.obj != 0 {
				return set(in, x.load(f.st, p))
			}
			return false
		}
		if in.Op == token.NOT {
			return set(in, x.c.Not(x.eval(f, in.X).(*Term)))
		}
	case *ssa.Store:
		if p, ok := x.eval(f, in.Addr).(Ptr); ok && p.obj != 0 && (x.initing || (p.obj > x.baseObj && !f.st.frozen[p.obj] && len(x.ro) == 0)) {
			x.store(f.st, p, x.eval(f, in.Val))
			return true
		}
	case *ssa.BinOp:
		a, ok1 := x.eval(f, in.X).(*Term)
		b, ok2 := x.eval(f, in.Y).(*Term)
		if ok1 && ok2 {
			if r, ok := x.arith(in.Op, a, b, in.X.Type()); ok {
				return set(in, r)
			}
		}
	}
	return false
}

// arith handles operators on terms which need no decision.
func (x *Ex) arith(op token.Token, a, b *Term, t types.Type) (*Term, bool) {
	c := x.c
	if a.sort == SBool {
		switch op {
		case token.EQL:
			return c.Eq(a, b), true
		case token.NEQ:
			return c.Not(c.Eq(a, b)), true
		case token.AND, token.LAND:
			return c.And(a, b), true
		case token.OR, token.LOR:
			return c.Or(a, b), true
		}
		return nil, false
	}
	if a.sort == SBV && b.sort == SBV {
		switch op {
		case token.EQL:
			return c.Eq(a, b), true
		case token.NEQ:
			return c.Not(c.Eq(a, b)), true
		case token.AND:
			return c.BVBin(OBVAnd, a, b), true
		case token.OR:
			return c.BVBin(OBVOr, a, b), true
		case token.XOR:
			return c.BVBin(OBVXor, a, b), true
		case token.AND_NOT:
			return c.BVBin(OBVAnd, a, c.BVNot(b)), true
		case token.ADD:
			return c.BVBin(OBVAdd, a, b), true
		case token.SUB:
			return c.BVBin(OBVSub, a, b), true
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return x.arith(op, c.BV2I(a), c.BV2I(b), types.Typ[types.Int])
		case token.MUL, token.QUO, token.REM:
			if op != token.MUL && b.op != OBVConst {
				return nil, false
			}
			r, ok := x.arith(op, c.BV2I(a), c.BV2I(b), types.Typ[types.Int])
			if !ok {
				return nil, false
			}
			return c.I2BV(r), true
		}
		return nil, false
	}
	if a.sort == SBV {
		// shifts by another type
		if op == token.SHL || op == token.SHR {
			if v, ok := b.int64(); ok && v >= 0 {
				o := OBVShl
				if op == token.SHR {
					o = OBVShr
				}
				return c.BVBin(o, a, c.BV(big.NewInt(v))), true
			}
		}
		return nil, false
	}
	if b.sort == SBV {
		b = c.BV2I(b)
	}
	switch op {
	case token.EQL:
		return c.Eq(a, b), true
	case token.NEQ:
		return c.Not(c.Eq(a, b)), true
	case token.LSS:
		return c.Lt(a, b), true
	case token.LEQ:
		return c.Le(a, b), true
	case token.GTR:
		return c.Gt(a, b), true
	case token.GEQ:
		return c.Ge(a, b), true
	case token.ADD:
		return x.wrap(c.Add(a, b), t), true
	case token.SUB:
		return x.wrap(c.Sub(a, b), t), true
	case token.MUL:
		return x.wrap(c.Mul(a, b), t), true
	case token.QUO, token.REM:
		if b.isConst() && b.c.Sign() != 0 {
			// truncated division by a constant
			k := new(big.Int).Abs(b.c)
			var q *Term
			if !a.iv.loInf && a.iv.lo >= 0 {
				q = c.FDiv(a, k)
			} else if !a.iv.hiInf && a.iv.hi <= 0 {
				q = c.Neg(c.FDiv(c.Neg(a), k))
			} else {
				q = c.Ite(c.Ge(a, c.Int(0)), c.FDiv(a, k), c.Neg(c.FDiv(c.Neg(a), k)))
			}
			if op == token.QUO {
				if b.c.Sign() < 0 {
					q = c.Neg(q)
				}
				return x.wrap(q, t), true
			}
			if !a.iv.loInf && a.iv.lo >= 0 {
				return c.FMod(a, k), true
			}
			return c.Sub(a, c.Scale(q, k)), true
		}
		return nil, false
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isConst() && b.isConst() {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(a.c, b.c)
			case token.OR:
				r.Or(a.c, b.c)
			case token.XOR:
				r.Xor(a.c, b.c)
			default:
				r.AndNot(a.c, b.c)
			}
			return x.wrap(c.Big(r), t), true
		}
		if op == token.AND && b.isConst() && b.c.Sign() >= 0 && isPow2m1(b.c) {
			return c.FMod(a, new(big.Int).Add(b.c, bigOne)), true
		}
		// both within 0..2^32-1: go through bit vectors
		in32 := func(t *Term) bool { return !t.iv.loInf && !t.iv.hiInf && t.iv.lo >= 0 && t.iv.hi < 1<<32 }
		if in32(a) && in32(b) {
			m := map[token.Token]Op{token.AND: OBVAnd, token.OR: OBVOr, token.XOR: OBVXor}
			if op == token.AND_NOT {
				return c.BV2I(c.BVBin(OBVAnd, c.I2BV(a), c.BVNot(c.I2BV(b)))), true
			}
			return c.BV2I(c.BVBin(m[op], c.I2BV(a), c.I2BV(b))), true
		}
		return nil, false
	case token.SHL:
		if v, ok := b.int64(); ok && v >= 0 && v < 128 {
			return x.wrap(c.Scale(a, new(big.Int).Lsh(bigOne, uint(v))), t), true
		}
	case token.SHR:
		if v, ok := b.int64(); ok && v >= 0 && v < 128 {
			return c.FDiv(a, new(big.Int).Lsh(bigOne, uint(v))), true
		}
	}
	return nil, false
}

func isPow2m1(b *big.Int) bool {
	n := new(big.Int).Add(b, bigOne)
	return new(big.Int).And(n, b).Sign() == 0
}

// wrap reduces an exact result to the range of its machine type.
func (x *Ex) wrap(r *Term, t types.Type) *Term {
	lo, hi, bits, signed := intRange(t)
	if bits == 0 {
		return r
	}
	iv := r.iv
	tl, th := ivConst(lo), ivConst(hi)
	loOK := !iv.loInf && (tl.loInf || iv.lo >= tl.lo)
	hiOK := !iv.hiInf && (th.hiInf || iv.hi <= th.hi)
	if loOK && hiOK {
		return r
	}
	m := new(big.Int).Lsh(bigOne, uint(bits))
	if r.isConst() {
		v := new(big.Int).Mod(new(big.Int).Sub(r.c, lo), m)
		return x.c.Big(v.Add(v, lo))
	}
	_ = signed
	in := x.c.And(x.c.Le(x.c.Big(lo), r), x.c.Le(r, x.c.Big(hi)))
	if in.isTrue() {
		return r
	}
	w := x.c.Add(x.c.FMod(x.c.Sub(r, x.c.Big(lo)), m), x.c.Big(lo))
	return x.c.Ite(in, r, w)
}

func (x *Ex) instr(f *frame, in ssa.Instruction) {
	st := f.st
	set := func(v ssa.Value, r Val) { f.regs[f.fi.num[v]] = r }
	switch in := in.(type) {
	case *ssa.BinOp:
		set(in, x.binop(st, in.Op, x.eval(f, in.X), x.eval(f, in.Y), in.X.Type()))
	case *ssa.UnOp:
		v := x.eval(f, in.X)
		switch in.Op {
		case token.MUL:
			switch p := v.(type) {
			case Ptr:
				set(in, x.load(st, p))
			default:
				unsup("load from %T", v)
			}
		case token.SUB:
			switch t := v.(type) {
			case *Term:
				if t.sort == SBV {
					set(in, x.c.BVBin(OBVSub, x.c.BV(new(big.Int)), t))
				} else {
					set(in, x.wrap(x.c.Neg(t), in.X.Type()))
				}
			case Float:
				set(in, Float{-t.f})
			default:
				unsup("negation of %T", v)
			}
		case token.XOR:
			t, ok := v.(*Term)
			if !ok {
				unsup("complement of %T", v)
			}
			if t.sort == SBV {
				set(in, x.c.BVNot(t))
			} else {
				_, _, _, signed := intRange(in.X.Type())
				if signed {
					set(in, x.c.Sub(x.c.Int(-1), t))
				} else {
					_, hi, _, _ := intRange(in.X.Type())
					set(in, x.c.Sub(x.c.Big(hi), t))
				}
			}
		default:
			unsup("unary %v", in.Op)
		}
	case *ssa.FieldAddr:
		if _, ok := x.eval(f, in.X).(Ptr); !ok {
			unsup("field of %T", x.eval(f, in.X))
		}
		panic(goPanic{"nil pointer dereference", nil})
	case *ssa.Field:
		unsup("field of %T", x.eval(f, in.X))
	case *ssa.Store:
		p, ok := x.eval(f, in.Addr).(Ptr)
		if !ok {
			unsup("store to %T", x.eval(f, in.Addr))
		}
		x.store(st, p, x.eval(f, in.Val))
	case *ssa.IndexAddr:
		idx := x.eval(f, in.Index)
		bv := x.eval(f, in.X)
		if s, ok := bv.(ByteStr); ok {
			bv = x.byteSlice(st, s)
		}
		switch b := bv.(type) {
		case Slice:
			i := x.index(st, idx, b.len)
			set(in, Ptr{b.obj, subPath(b.path, b.off+i)})
		case Ptr:
			n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if b.obj == 0 {
				panic(goPanic{"nil pointer dereference", nil})
			}
			i := x.index(st, idx, n)
			set(in, Ptr{b.obj, subPath(b.path, i)})
		default:
			unsup("index of %T", b)
		}
	case *ssa.Index:
		switch b := x.eval(f, in.X).(type) {
		case Struct:
			set(in, b.f[x.index(st, x.eval(f, in.Index), len(b.f))])
		case Str:
			set(in, x.byteAt(st, b, x.eval(f, in.Index)))
		default:
			unsup("index of %T", b)
		}
	case *ssa.Lookup:
		switch m := x.eval(f, in.X).(type) {
		case Str:
			set(in, x.byteAt(st, m, x.eval(f, in.Index)))
		case MapRef:
			k := x.eval(f, in.Index)
			v, ok := x.mapGet(st, m, k)
			if !ok {
				v = x.zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				set(in, Tuple{v, x.c.Bool(ok)})
			} else {
				set(in, v)
			}
		default:
			unsup("lookup in %T", m)
		}
	case *ssa.MapUpdate:
		m, ok := x.eval(f, in.Map).(MapRef)
		if !ok {
			unsup("map update")
		}
		if m.obj == 0 {
			panic(goPanic{"assignment to entry in nil map", nil})
		}
		x.checkFrame(st, m.obj)
		k, v := x.eval(f, in.Key), x.eval(f, in.Value)
		x.mapSet(st, m, k, v)
	case *ssa.MakeSlice:
		n := x.concInt(st, x.eval(f, in.Len), "slice length")
		c := x.concInt(st, x.eval(f, in.Cap), "slice capacity")
		if n < 0 || c < n {
			panic(goPanic{"makeslice: len out of range", nil})
		}
		if c > 1<<16 {
			unsup("large slice")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := Struct{make([]Val, c)}
		for i := range s.f {
			s.f[i] = x.zero(el)
		}
		set(in, Slice{obj: x.newObj(st, s), len: n, cap: c})
	case *ssa.Slice:
		set(in, x.slice(f, in))
	case *ssa.Convert:
		set(in, x.convert(st, x.eval(f, in.X), in.X.Type(), in.Type()))
	case *ssa.TypeAssert:
		x.typeAssert(f, in)
	case *ssa.Range:
		switch m := x.eval(f, in.X).(type) {
		case MapRef:
			it := MapIter{m: m.obj}
			if m.obj != 0 {
				md := x.mapData(st, m)
				for i := range md.keys {
					it.left = append(it.left, i)
				}
			}
			set(in, Ptr{obj: x.newObj(st, it)})
		case Str:
			s := m
			set(in, Ptr{obj: x.newObj(st, MapIter{str: &s})})
		default:
			unsup("range over %T", m)
		}
	case *ssa.Next:
		x.next(f, in)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		unsup("conversion %v", in)
	default:
		unsup("instruction %T", in)
	}
}

func (x *Ex) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		if r, ok := x.arith(op, ta, tb, t); ok {
			return r
		}
		if op == token.QUO || op == token.REM {
			if x.decide(st, x.c.Eq(tb, x.c.Int(0))) {
				panic(goPanic{"integer divide by zero", nil})
			}
			v := x.concInt(st, tb, "divisor")
			r, ok := x.arith(op, ta, x.c.Int(int64(v)), t)
			if ok {
				return r
			}
		}
		if op == token.SHL || op == token.SHR {
			v := x.concInt(st, tb, "shift count")
			if v < 0 {
				panic(goPanic{"negative shift amount", nil})
			}
			if r, ok := x.arith(op, ta, x.c.Int(int64(v)), t); ok {
				return r
			}
		}
		unsup("operator %v on symbolic operands", op)
	}
	switch va := a.(type) {
	case Str:
		vb := b.(Str)
		switch op {
		case token.ADD:
			return concatStr(va, vb)
		case token.EQL:
			return x.strEq(st, va, vb)
		case token.NEQ:
			return x.c.Not(x.strEq(st, va, vb))
		default:
			r := x.strCmp(st, va, vb)
			switch op {
			case token.LSS:
				return x.c.Lt(r, x.c.Int(0))
			case token.LEQ:
				return x.c.Le(r, x.c.Int(0))
			case token.GTR:
				return x.c.Gt(r, x.c.Int(0))
			case token.GEQ:
				return x.c.Ge(r, x.c.Int(0))
			}
		}
	case Float:
		vb, ok := b.(Float)
		if ok {
			switch op {
			case token.ADD:
				return Float{va.f + vb.f}
			case token.SUB:
				return Float{va.f - vb.f}
			case token.MUL:
				return Float{va.f * vb.f}
			case token.QUO:
				return Float{va.f / vb.f}
			case token.EQL:
				return x.c.Bool(va.f == vb.f)
			case token.NEQ:
				return x.c.Bool(va.f != vb.f)
			case token.LSS:
				return x.c.Bool(va.f < vb.f)
			case token.LEQ:
				return x.c.Bool(va.f <= vb.f)
			case token.GTR:
				return x.c.Bool(va.f > vb.f)
			case token.GEQ:
				return x.c.Bool(va.f >= vb.f)
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		r := x.equal(st, a, b)
		if op == token.NEQ {
			r = x.c.Not(r)
		}
		return r
	}
	unsup("operator %v on %T and %T", op, a, b)
	return nil
}

// equal is Go's == on values.
func (x *Ex) equal(st *State, a, b Val) *Term {
	switch va := a.(type) {
	case *Term:
		return x.c.Eq(va, b.(*Term))
	case Str:
		return x.strEq(st, va, b.(Str))
	case Ptr:
		if vb, ok := b.(Ptr); ok {
			if va != vb && va.obj != 0 && vb.obj != 0 && x.isRO(va.obj) && x.isRO(vb.obj) {
				unsup("comparison of pointers into the result of a readonly contract")
			}
			return x.c.Bool(va == vb)
		}
		return x.c.F // a model object is never nil
	case Rx, Loc, FixedLoc:
		switch vb := b.(type) {
		case Ptr:
			return x.c.F
		case Loc:
			if la, ok := a.(Loc); ok {
				return x.c.Bool(la == vb)
			}
		}
		unsup("comparison of %T", a)
	case MapRef:
		return x.c.Bool(va == b.(MapRef))
	case Slice:
		vb := b.(Slice)
		return x.c.Bool(va.obj == vb.obj && (va.obj == 0 || va == vb))
	case Fn:
		vb := b.(Fn)
		return x.c.Bool((va.f == nil && va.b == nil) == (vb.f == nil && vb.b == nil) && va.f == nil && va.b == nil)
	case Iface:
		vb, ok := b.(Iface)
		if !ok {
			return x.equal(st, va.v, b)
		}
		if va.t == nil || vb.t == nil {
			return x.c.Bool(va.t == nil && vb.t == nil)
		}
		if !types.Identical(va.t, vb.t) {
			return x.c.F
		}
		return x.equal(st, va.v, vb.v)
	case Struct:
		vb := b.(Struct)
		var cs []*Term
		for i := range va.f {
			cs = append(cs, x.equal(st, va.f[i], vb.f[i]))
		}
		return x.c.And(cs...)
	case TimeV:
		vb, ok := b.(TimeV)
		if ok && va.zone.kind == vb.zone.kind && va.zone.kind == 0 {
			return x.c.And(x.c.Eq(va.days, vb.days), x.c.Eq(va.sec, vb.sec), x.c.Eq(va.ns, vb.ns))
		}
	case Float:
		if vb, ok := b.(Float); ok {
			return x.c.Bool(va.f == vb.f)
		}
	}
	unsup("comparison of %T and %T", a, b)
	return nil
}

// concInt forks until the integer is a constant.
func (x *Ex) concInt(st *State, v Val, what string) int {
	t, ok := v.(*Term)
	if !ok {
		unsup("%s: %T", what, v)
	}
	if t.sort == SBV {
		t = x.c.BV2I(t)
	}
	for n := 0; n < 200; n++ {
		if c, ok := t.int64(); ok {
			return int(c)
		}
		// propose the value in the current model
		var cand *big.Int
		if st.tpos < len(st.trail) {
			// replaying: the proposals are deterministic, derive them from the solver
		}
		if st.model != nil {
			cand, _ = x.c.eval(t, st.model, map[int]bigInt{})
		}
		if cand == nil || true {
			r, m := x.s.Check(st.pc, x.c.Eq(x.c.Fresh2(t), t))
			if r == Unsat {
				panic(infeasible{})
			}
			if r == Unknown {
				unsup("%s is not determined", what)
			}
			cand, ok = x.c.eval(t, m, map[int]bigInt{})
			if !ok {
				unsup("%s has no value", what)
			}
		}
		if x.decide(st, x.c.Eq(t, x.c.Big(cand))) {
			return int(cand.Int64())
		}
	}
	unsup("%s has too many values", what)
	return 0
}

// Fresh2 names a variable equal to t, so that models cover t's leaves.
func (c *TCtx) Fresh2(t *Term) *Term {
	return c.Var(fmt.Sprintf("val!%d", t.id), SInt, fullIv)
}

func (x *Ex) index(st *State, idx Val, n int) int {
	t, ok := idx.(*Term)
	if !ok {
		unsup("index %T", idx)
	}
	if t.sort == SBV {
		t = x.c.BV2I(t)
	}
	x.safety++
	ok2 := x.decide(st, x.c.And(x.c.Ge(t, x.c.Int(0)), x.c.Lt(t, x.c.Int(int64(n)))))
	if !ok2 {
		panic(goPanic{fmt.Sprintf("index out of range with length %d", n), nil})
	}
	if c, ok := t.int64(); ok {
		return int(c)
	}
	for i := 0; i < n-1; i++ {
		if x.decide(st, x.c.Eq(t, x.c.Int(int64(i)))) {
			return i
		}
	}
	return n - 1
}

func (x *Ex) slice(f *frame, in *ssa.Slice) Val {
	st := f.st
	v := x.eval(f, in.X)
	if s, ok := v.(Str); ok {
		return x.strSlice(st, s, x.optEval(f, in.Low), x.optEval(f, in.High))
	}
	if b, ok := v.(ByteStr); ok {
		return ByteStr{x.strSlice(st, b.s, x.optEval(f, in.Low), x.optEval(f, in.High))}
	}
	var base Slice
	switch b := v.(type) {
	case Slice:
		base = b
	case Ptr:
		if b.obj == 0 {
			panic(goPanic{"nil pointer dereference", nil})
		}
		n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		base = Slice{obj: b.obj, path: b.path, len: n, cap: n}
	default:
		unsup("slice of %T", v)
	}
	lo, hi, max := 0, base.len, base.cap
	if in.Low != nil {
		lo = x.concInt(st, x.eval(f, in.Low), "slice bound")
	}
	if in.High != nil {
		hi = x.concInt(st, x.eval(f, in.High), "slice bound")
	}
	if in.Max != nil {
		max = x.concInt(st, x.eval(f, in.Max), "slice bound")
	}
	if lo < 0 || hi < lo || max < hi || max > base.cap {
		panic(goPanic{"slice bounds out of range", nil})
	}
	if base.obj == 0 {
		return Slice{}
	}
	return Slice{obj: base.obj, path: base.path, off: base.off + lo, len: hi - lo, cap: max - lo}
}

func (x *Ex) optEval(f *frame, v ssa.Value) Val {
	if v == nil {
		return nil
	}
	return x.eval(f, v)
}

func (x *Ex) elems(st *State, s Slice) []Val {
	if s.obj == 0 {
		return nil
	}
	arr := x.load(st, Ptr{s.obj, s.path}).(Struct)
	return arr.f[s.off : s.off+s.len]
}

func (x *Ex) mkSlice(st *State, vals []Val) Slice {
	return Slice{obj: x.newObj(st, Struct{vals}), len: len(vals), cap: len(vals)}
}

func (x *Ex) mapData(st *State, m MapRef) MapData {
	v, _ := st.get(m.obj)
	md, ok := v.(MapData)
	if !ok {
		unsup("map contents %T", v)
	}
	return md
}

func (x *Ex) mapFind(st *State, md MapData, k Val) int {
	for i, kk := range md.keys {
		if x.decide(st, x.equal(st, k, kk)) {
			return i
		}
	}
	return -1
}

func (x *Ex) mapGet(st *State, m MapRef, k Val) (Val, bool) {
	if m.obj == 0 {
		return nil, false
	}
	md := x.mapData(st, m)
	if i := x.mapFind(st, md, k); i >= 0 {
		return md.vals[i], true
	}
	return nil, false
}

func (x *Ex) mapSet(st *State, m MapRef, k, v Val) {
	md := x.mapData(st, m)
	i := -1
	if x.initing {
		kk := valKey(k)
		for j := range md.keys {
			if valKey(md.keys[j]) == kk {
				i = j
			}
		}
	} else {
		i = x.mapFind(st, md, k)
	}
	n := MapData{append([]Val{}, md.keys...), append([]Val{}, md.vals...)}
	if i >= 0 {
		n.vals[i] = v
	} else {
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	}
	st.set(m.obj, n)
}

func (x *Ex) next(f *frame, in *ssa.Next) {
	st := f.st
	p := x.eval(f, in.Iter).(Ptr)
	v, _ := st.get(p.obj)
	it := v.(MapIter)
	set := func(ok bool, k, v Val) {
		f.regs[f.fi.num[in]] = Tuple{x.c.Bool(ok), k, v}
	}
	if it.str != nil {
		s := st.norm(*it.str)
		ch, rest, ok := x.splitFirst(st, s)
		if !ok {
			set(false, x.c.Int(0), x.c.Int(0))
			return
		}
		w := x.symWidth(st, ch)
		r := x.c.Ite(x.c.Ge(ch, x.c.Int(symBad)), x.c.Int(0xFFFD), ch)
		pos := it.pos
		set(true, x.c.Int(int64(pos)), r)
		st.set(p.obj, MapIter{str: &rest, pos: pos + w})
		return
	}
	if len(it.left) == 0 || it.m == 0 {
		tt := in.Type().(*types.Tuple)
		set(false, x.zeroOr(tt.At(1).Type()), x.zeroOr(tt.At(2).Type()))
		return
	}
	i := 0
	if len(it.left) <= 3 && !x.initing {
		i = x.choose(st, len(it.left)) // map iteration order is unspecified
	} else if !x.initing {
		st.notes = append(st.notes, "map iterated in insertion order")
	}
	md := x.mapData(st, MapRef{it.m})
	k := it.left[i]
	left := append(append([]int{}, it.left[:i]...), it.left[i+1:]...)
	st.set(p.obj, MapIter{m: it.m, left: left})
	set(true, md.keys[k], md.vals[k])
}

func (x *Ex) zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return x.zero(t)
}

func (x *Ex) typeAssert(f *frame, in *ssa.TypeAssert) {
	v, ok := x.eval(f, in.X).(Iface)
	if !ok {
		unsup("type assertion on %T", x.eval(f, in.X))
	}
	match := false
	if v.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(v.t, it)
		} else {
			match = types.Identical(v.t, in.AssertedType)
		}
	}
	var r Val
	if match {
		if types.IsInterface(in.AssertedType) {
			r = v
		} else {
			r = v.v
		}
	}
	if in.CommaOk {
		if !match {
			r = x.zero(in.AssertedType)
		}
		f.regs[f.fi.num[in]] = Tuple{r, x.c.Bool(match)}
		return
	}
	if !match {
		panic(goPanic{"interface conversion", nil})
	}
	f.regs[f.fi.num[in]] = r
}

// fixedLen tells whether a string consists of a fixed number of characters.
func fixedLen(s Str) bool {
	for _, a := range s.a {
		if a.kind != ALit && a.kind != AChar {
			return false
		}
	}
	return true
}

// byteSlice makes the bytes of a string accessible, for reading only.
func (x *Ex) byteSlice(st *State, b ByteStr) Slice {
	var es []Val
	for _, ch := range x.chars(st, b.s) {
		x.needASCII(st, ch)
		es = append(es, ch)
	}
	sl := x.mkSlice(st, es)
	x.ro = append(x.ro, [2]int{sl.obj, sl.obj})
	return sl
}

func (x *Ex) convert(st *State, v Val, from, to types.Type) Val {
	tu, fu := to.Underlying(), from.Underlying()
	tb, tok := tu.(*types.Basic)
	fb, fok := fu.(*types.Basic)
	switch {
	case tok && fok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		if fb.Kind() == types.Uint32 {
			if tb.Kind() == types.Uint32 {
				return t
			}
			return x.wrap(x.c.BV2I(t), to)
		}
		if tb.Kind() == types.Uint32 {
			return x.c.I2BV(t)
		}
		return x.wrap(t, to)
	case tok && fok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		t := v.(*Term)
		if t.sort == SBV {
			t = x.c.BV2I(t)
		}
		bad := x.c.Or(x.c.Lt(t, x.c.Int(0)), x.c.Gt(t, x.c.Int(0x10FFFF)), x.c.And(x.c.Ge(t, x.c.Int(0xD800)), x.c.Le(t, x.c.Int(0xDFFF))))
		return x.charStr(x.c.Ite(bad, x.c.Int(0xFFFD), t))
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := v.(Str); ok {
			return s
		}
		if b, ok := v.(ByteStr); ok {
			return b.s
		}
		sl, ok := v.(Slice)
		if !ok {
			unsup("conversion of %T to string", v)
		}
		es := x.elems(st, sl)
		isRune := false
		if st, ok := fu.(*types.Slice); ok {
			isRune = st.Elem().Underlying().(*types.Basic).Kind() == types.Int32
		}
		var parts []Str
		if !isRune {
			// all-constant bytes
			var bs []byte
			conc := true
			for _, e := range es {
				c, ok := e.(*Term).int64()
				if !ok {
					conc = false
					break
				}
				bs = append(bs, byte(c))
			}
			if conc {
				return lit(string(bs))
			}
		}
		for _, e := range es {
			t := e.(*Term)
			if !isRune && !x.decide(st, x.c.Lt(t, x.c.Int(128))) {
				unsup("non-ASCII bytes")
			}
			parts = append(parts, x.charStr(t))
		}
		return concatStr(parts...)
	case fok && fb.Info()&types.IsString != 0:
		// string to []byte or []rune
		sl, ok := tu.(*types.Slice)
		if !ok {
			unsup("conversion of string to %v", to)
		}
		isRune := sl.Elem().Underlying().(*types.Basic).Kind() == types.Int32
		s := v.(Str)
		if l, ok := st.norm(s).isLit(); ok {
			var es []Val
			if isRune {
				for _, r := range l {
					es = append(es, x.c.Int(int64(r)))
				}
			} else {
				for i := 0; i < len(l); i++ {
					es = append(es, x.c.Int(int64(l[i])))
				}
			}
			return x.mkSlice(st, es)
		}
		if !isRune && !fixedLen(s) {
			return ByteStr{s}
		}
		chars := x.chars(st, s)
		var es []Val
		for _, ch := range chars {
			if !isRune {
				x.needASCII(st, ch)
			} else {
				ch = x.c.Ite(x.c.Ge(ch, x.c.Int(symBad)), x.c.Int(0xFFFD), ch)
			}
			es = append(es, ch)
		}
		return x.mkSlice(st, es)
	case tok && fok && tb.Info()&types.IsFloat != 0:
		switch t := v.(type) {
		case Float:
			if tb.Kind() == types.Float32 {
				return Float{float64(float32(t.f))}
			}
			return t
		case *Term:
			if c, ok := t.int64(); ok {
				return Float{float64(c)}
			}
		}
		unsup("symbolic floating point")
	case tok && fok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		fl := v.(Float)
		return x.wrap(x.c.Int(int64(fl.f)), to)
	}
	switch v.(type) {
	case Ptr, Slice, MapRef, Fn, Struct, Iface, TimeV:
		return v
	}
	unsup("conversion from %v to %v", from, to)
	return nil
}

// ---- calls

func (x *Ex) callee(f *frame, c *ssa.CallCommon) (Val, *types.Func, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := x.eval(f, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, x.eval(f, a))
		}
		return nil, c.Method, args
	}
	for _, a := range c.Args {
		args = append(args, x.eval(f, a))
	}
	return x.eval(f, c.Value), nil, args
}

// invoke performs a call and returns the frames that continue behind it.
func (x *Ex) invoke(f *frame, fn Val, meth *types.Func, args []Val, pos token.Pos, in *ssa.Call, reg int, ret func(Outcome), again func(*frame)) []*frame {
	finish := func(g *frame, v Val) *frame {
		if reg >= 0 {
			g.regs[reg] = v
		}
		g.idx++
		return g
	}
	var target *ssa.Function
	var bind []Val
	if meth != nil {
		recv, ok := args[0].(Iface)
		if !ok {
			unsup("method call on %T", args[0])
		}
		if recv.t == nil {
			x.doPanic(f, &goPanic{"nil pointer dereference (method of a nil interface)", nil}, pos, ret, again)
			return nil
		}
		target = x.prog.LookupMethod(recv.t, meth.Pkg(), meth.Name())
		if target == nil {
			unsup("method %s of %v", meth.Name(), recv.t)
		}
		args = append([]Val{recv.v}, args[1:]...)
	} else {
		fv, ok := fn.(Fn)
		if !ok {
			unsup("call of %T", fn)
		}
		if fv.b != nil {
			fs, ps := x.fork(f, func(g *frame) {
				v := x.builtin(g.st, fv.b, args, in)
				finish(g, v)
			}, in)
			for _, p := range ps {
				x.doPanic(p.f, p.p, pos, ret, again)
			}
			return fs
		}
		if fv.f == nil {
			x.doPanic(f, &goPanic{"nil pointer dereference (call of nil function)", nil}, pos, ret, again)
			return nil
		}
		target = fv.f
		bind = fv.bind
	}
	// contracts, models, bodies
	if m := x.model(target, args); m != nil {
		fs, ps := x.fork(f, func(g *frame) {
			v := m(x, g.st, args)
			finish(g, v)
		}, in)
		for _, p := range ps {
			x.doPanic(p.f, p.p, pos, ret, again)
		}
		return fs
	}
	outs, done := x.callContract(f.st, target, args)
	if !done {
		if !x.mayInline(target) {
			unsup("call of %s", target)
		}
		outs = x.call(f.st, target, args, bind)
	}
	var fs []*frame
	for i, o := range outs {
		g := f
		if i < len(outs)-1 {
			g = &frame{}
			*g = *f
			g.regs = append([]Val{}, f.regs...)
			g.defers = append([]deferred{}, f.defers...)
		}
		g.st = o.st
		if o.panic != nil {
			x.doPanicAt(g, o, ret, again)
			continue
		}
		fs = append(fs, finish(g, o.ret))
	}
	return fs
}

func (x *Ex) doPanicAt(f *frame, o Outcome, ret func(Outcome), again func(*frame)) {
	if len(f.defers) > 0 {
		unsup("panic in a function with deferred calls: %s (%s)", f.fn, o.panic.msg)
	}
	ret(Outcome{st: f.st, panic: o.panic, pos: o.pos, wher: o.wher})
}

// callFrom runs a function value from within a model: one outcome is chosen.
func (x *Ex) callFrom(st *State, fn Fn, args []Val) Val {
	if fn.f == nil {
		unsup("call of a builtin from a model")
	}
	if m := x.model(fn.f, args); m != nil {
		return m(x, st, args)
	}
	if !x.mayInline(fn.f) {
		unsup("call of %s", fn.f)
	}
	sub := st.clone()
	sub.trail, sub.trails, sub.tpos = nil, nil, 0
	outs := x.call(sub, fn.f, args, fn.bind)
	i := x.choose(st, len(outs))
	o := outs[i]
	tr, tp, trs := st.trail, st.tpos, st.trails
	*st = *o.st.clone()
	st.trail, st.tpos, st.trails = tr, tp, trs
	if o.panic != nil {
		panic(*o.panic)
	}
	return o.ret
}

func (x *Ex) builtin(st *State, b *ssa.Builtin, args []Val, in *ssa.Call) Val {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Str:
			return x.strLen(st, v)
		case Slice:
			return x.c.Int(int64(v.len))
		case ByteStr:
			return x.strLen(st, v.s)
		case MapRef:
			if v.obj == 0 {
				return x.c.Int(0)
			}
			return x.c.Int(int64(len(x.mapData(st, v).keys)))
		case Struct:
			return x.c.Int(int64(len(v.f)))
		}
	case "cap":
		if v, ok := args[0].(Slice); ok {
			return x.c.Int(int64(v.cap))
		}
	case "append":
		if b, ok := args[0].(ByteStr); ok {
			return ByteStr{concatStr(b.s, x.bytesStr(st, args[1]))}
		}
		if b, ok := args[1].(ByteStr); ok {
			return ByteStr{concatStr(x.bytesStr(st, args[0]), b.s)}
		}
		s := args[0].(Slice)
		var add []Val
		switch t := args[1].(type) {
		case Slice:
			add = append(add, x.elems(st, t)...)
		case Str:
			sl := x.convert(st, t, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(Slice)
			add = append(add, x.elems(st, sl)...)
		}
		if len(add) == 0 {
			return s
		}
		if s.obj != 0 && s.len+len(add) <= s.cap {
			x.checkFrame(st, s.obj)
			arr := x.load(st, Ptr{s.obj, s.path}).(Struct)
			n := append([]Val{}, arr.f...)
			copy(n[s.off+s.len:], add)
			x.store(st, Ptr{s.obj, s.path}, Struct{n})
			return Slice{s.obj, s.path, s.off, s.len + len(add), s.cap}
		}
		// reallocation: the capacity is unspecified; no spare room is assumed
		vals := append(append([]Val{}, x.elems(st, s)...), add...)
		return x.mkSlice(st, vals)
	case "copy":
		d := args[0].(Slice)
		var src []Val
		switch t := args[1].(type) {
		case Slice:
			src = append(src, x.elems(st, t)...)
		case Str:
			sl := x.convert(st, t, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(Slice)
			src = append(src, x.elems(st, sl)...)
		}
		n := len(src)
		if d.len < n {
			n = d.len
		}
		if n > 0 {
			arr := x.load(st, Ptr{d.obj, d.path}).(Struct)
			m := append([]Val{}, arr.f...)
			copy(m[d.off:d.off+n], src[:n])
			x.store(st, Ptr{d.obj, d.path}, Struct{m})
		}
		return x.c.Int(int64(n))
	case "delete":
		m := args[0].(MapRef)
		if m.obj == 0 {
			return nil
		}
		x.checkFrame(st, m.obj)
		md := x.mapData(st, m)
		if i := x.mapFind(st, md, args[1]); i >= 0 {
			n := MapData{append([]Val{}, md.keys[:i]...), append([]Val{}, md.vals[:i]...)}
			n.keys = append(n.keys, md.keys[i+1:]...)
			n.vals = append(n.vals, md.vals[i+1:]...)
			st.set(m.obj, n)
		}
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			ta, ok1 := r.(*Term)
			tb, ok2 := a.(*Term)
			if !ok1 || !ok2 || ta.sort != SInt {
				unsup("builtin %s", b.Name())
			}
			if b.Name() == "min" {
				r = x.c.Ite(x.c.Le(ta, tb), ta, tb)
			} else {
				r = x.c.Ite(x.c.Ge(ta, tb), ta, tb)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(goPanic{"nil pointer dereference (method value)", nil})
		}
		return args[0]
	case "recover":
		return Iface{}
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Ex) mayInline(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg == nil {
		if f.Parent() != nil {
			return x.mayInline(f.Parent())
		}
		// wrappers and bound methods
		return true
	}
	p := pkg.Pkg.Path()
	if x.w.isRepo(p) {
		return true
	}
	switch p {
	case "errors", "unicode/utf8", "sort", "strings", "slices", "cmp", "maps", "strconv", "bytes", "unicode", "math", "internal/stringslite", "internal/bytealg", "math/bits", "iter":
		return true
	}
	return false
}

// ---- merging

func (x *Ex) mergeFrames(frs []*frame) []*frame {
	if x.vc != nil && x.vc.noMerge {
		return frs
	}
	// only frames of one shape can merge
	buckets := map[string][]*frame{}
	var order []string
	for _, f := range frs {
		live := f.fi.live[f.blk.Index]
		for i := range f.regs {
			if !live[i] {
				f.regs[i] = nil
			}
		}
		h := make([]byte, 0, 128)
		h = strconv.AppendInt(h, int64(f.idx), 10)
		h = strconv.AppendInt(append(h, ','), int64(len(f.st.subst)), 10)
		h = strconv.AppendInt(append(h, ','), int64(len(f.st.frozen)), 10)
		for _, r := range f.regs {
			h = shape(x.c, h, r)
		}
		k := string(h)
		if len(buckets[k]) == 0 {
			order = append(order, k)
		}
		buckets[k] = append(buckets[k], f)
	}
	var res []*frame
	for _, k := range order {
		var out []*frame
		for _, f := range buckets[k] {
		next:
			for {
				for i, g := range out {
					if m := x.mergeTwo(g, f); m != nil {
						out = append(out[:i], out[i+1:]...)
						f = m
						continue next
					}
				}
				break
			}
			out = append(out, f)
		}
		res = append(res, out...)
	}
	return res
}

// shape appends what two values must have in common to be merged.
func shape(c *TCtx, h []byte, v Val) []byte {
	switch v := v.(type) {
	case nil:
		return append(h, '-')
	case *Term:
		return append(h, 't', byte('0'+v.sort))
	case Str:
		n := 0
		for _, a := range v.a {
			switch a.kind {
			case ALit:
				n += len(symsOf(a.lit))
			case AChar:
				n++
			default:
				n = 1000
			}
		}
		if n <= 16 {
			return strconv.AppendInt(append(h, 's'), int64(n), 10)
		}
		return append(append(h, 'S'), v.key()...)
	case Ptr:
		h = strconv.AppendInt(append(h, 'p'), int64(v.obj), 10)
		return append(h, v.path...)
	case Slice:
		h = strconv.AppendInt(append(h, 'l'), int64(v.obj), 10)
		return strconv.AppendInt(append(h, ','), int64(v.len), 10)
	case Struct:
		h = append(h, '{')
		for _, f := range v.f {
			h = shape(c, h, f)
		}
		return append(h, '}')
	case Tuple:
		h = append(h, '(')
		for _, f := range v {
			h = shape(c, h, f)
		}
		return append(h, ')')
	case Iface:
		if v.t == nil {
			return append(h, 'n')
		}
		return shape(c, append(h, 'i'), v.v)
	}
	return append(h, '?')
}

func (x *Ex) mergeTwo(a, b *frame) *frame {
	if a.idx != b.idx || len(a.defers) != 0 || len(b.defers) != 0 {
		return nil
	}
	m := x.newMerge(a.st, b.st)
	if m == nil {
		return nil
	}
	regs := make([]Val, len(a.regs))
	for i := range regs {
		v, ok := m.val(a.regs[i], b.regs[i])
		if !ok {
			return nil
		}
		regs[i] = v
	}
	st := m.finish()
	if st == nil {
		return nil
	}
	n := *a
	n.st = st
	n.regs = regs
	if b.iters > n.iters {
		n.iters = b.iters
	}
	return &n
}

func (x *Ex) mergeOutcomes(outs []Outcome) []Outcome {
	if x.vc != nil && x.vc.noMerge {
		return outs
	}
	buckets := map[string][]Outcome{}
	var order []string
	var res []Outcome
	for _, o := range outs {
		if o.panic != nil {
			res = append(res, o)
			continue
		}
		h := make([]byte, 0, 128)
		h = strconv.AppendInt(append(h, ','), int64(len(o.st.subst)), 10)
		h = strconv.AppendInt(append(h, ','), int64(len(o.st.frozen)), 10)
		k := string(shape(x.c, h, o.ret))
		if len(buckets[k]) == 0 {
			order = append(order, k)
		}
		buckets[k] = append(buckets[k], o)
	}
	for _, k := range order {
		var out []Outcome
		for _, o := range buckets[k] {
		next:
			for {
				for i, p := range out {
					m := x.newMerge(p.st, o.st)
					if m == nil {
						continue
					}
					v, ok := m.val(p.ret, o.ret)
					if !ok {
						continue
					}
					st := m.finish()
					if st == nil {
						continue
					}
					out = append(out[:i], out[i+1:]...)
					o = Outcome{st: st, ret: v}
					continue next
				}
				break
			}
			out = append(out, o)
		}
		res = append(res, out...)
	}
	return res
}

func sameStr(a, b Str) bool {
	if len(a.a) == len(b.a) && (len(a.a) == 0 || &a.a[0] == &b.a[0]) {
		return true
	}
	return a.key() == b.key()
}

type merger struct {
	x    *Ex
	a, b *State
	sel  *Term // true in a, false in b
	pre  []*Term
	ra   *Term // remaining condition of a
	rb   *Term
}

func (x *Ex) newMerge(a, b *State) *merger {
	if len(a.subst) != len(b.subst) || len(a.frozen) != len(b.frozen) {
		return nil
	}
	for k, v := range a.langs {
		if b.langs[k] != v {
			return nil
		}
	}
	for k, v := range a.subst {
		w, ok := b.subst[k]
		if !ok || !sameStr(v, w) {
			return nil
		}
	}
	// the common beginning, then the rest
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	x.stamp += 2
	ma, mb := x.stamp, x.stamp+1
	for _, t := range b.pc[n:] {
		t.mark = mb
	}
	pre := a.pc[:n:n]
	var da, db []*Term
	for _, t := range a.pc[n:] {
		if t.mark == mb {
			pre = append(pre, t)
		} else {
			da = append(da, t)
			if len(da) > 40 {
				return nil
			}
		}
	}
	for _, t := range a.pc[n:] {
		t.mark = ma
	}
	for _, t := range b.pc[n:] {
		if t.mark != ma {
			db = append(db, t)
			if len(db) > 40 {
				return nil
			}
		}
	}
	// identical conditions are fine when everything else is identical too
	if len(da) == 0 && len(db) == 0 {
		return &merger{x: x, a: a, b: b, pre: pre, ra: x.c.T, rb: x.c.T}
	}
	x.stamp++
	for _, t := range db {
		t.mark = x.stamp
	}
	var sel *Term
	for _, t := range da {
		if x.c.Not(t).mark == x.stamp {
			sel = t
			break
		}
	}
	if sel == nil {
		return nil
	}
	return &merger{x: x, a: a, b: b, sel: sel, pre: pre, ra: x.c.And(da...), rb: x.c.And(db...)}
}

func (m *merger) val(a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if m.sel == nil {
		return nil, false
	}
	c := m.x.c
	switch va := a.(type) {
	case *Term:
		vb, ok := b.(*Term)
		if !ok || va.sort != vb.sort {
			return nil, false
		}
		return c.Ite(m.sel, va, vb), true
	case Str:
		vb, ok := b.(Str)
		if !ok {
			return nil, false
		}
		return m.str(va, vb)
	case Struct:
		vb, ok := b.(Struct)
		if !ok || len(va.f) != len(vb.f) {
			return nil, false
		}
		r := Struct{make([]Val, len(va.f))}
		for i := range va.f {
			v, ok := m.val(va.f[i], vb.f[i])
			if !ok {
				return nil, false
			}
			r.f[i] = v
		}
		return r, true
	case Tuple:
		vb, ok := b.(Tuple)
		if !ok || len(va) != len(vb) {
			return nil, false
		}
		r := make(Tuple, len(va))
		for i := range va {
			v, ok := m.val(va[i], vb[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Iface:
		vb, ok := b.(Iface)
		if !ok || va.t == nil || vb.t == nil || !types.Identical(va.t, vb.t) {
			return nil, false
		}
		v, ok := m.val(va.v, vb.v)
		if !ok {
			return nil, false
		}
		return Iface{va.t, v}, true
	case TimeV:
		vb, ok := b.(TimeV)
		if !ok || va.zone.kind != vb.zone.kind {
			return nil, false
		}
		it := func(p, q *Term) *Term {
			if p == nil || q == nil {
				return nil
			}
			return c.Ite(m.sel, p, q)
		}
		r := TimeV{days: it(va.days, vb.days), sec: it(va.sec, vb.sec), ns: it(va.ns, vb.ns), zone: ZoneV{va.zone.kind, it(va.zone.off, vb.zone.off)}}
		r.y, r.mo, r.d, r.lsec = it(va.y, vb.y), it(va.mo, vb.mo), it(va.d, vb.d), it(va.lsec, vb.lsec)
		return r, true
	}
	return nil, false
}

func (m *merger) str(a, b Str) (Val, bool) {
	ca, ok1 := fixedChars(m.x.c, a)
	cb, ok2 := fixedChars(m.x.c, b)
	if !ok1 || !ok2 || len(ca) != len(cb) || len(ca) > 16 {
		return nil, false
	}
	var parts []Str
	for i := range ca {
		parts = append(parts, m.x.charStr(m.x.c.Ite(m.sel, ca[i], cb[i])))
	}
	return concatStr(parts...), true
}

// fixedChars lists the symbols of a string made of literals and single
// characters only.
func fixedChars(c *TCtx, s Str) ([]*Term, bool) {
	var out []*Term
	for _, a := range s.a {
		switch a.kind {
		case ALit:
			for _, x := range symsOf(a.lit) {
				out = append(out, c.Int(int64(x)))
			}
		case AChar:
			out = append(out, a.t)
		default:
			return nil, false
		}
	}
	return out, true
}

func lookup(l *layer, k int) (Val, bool) {
	for ; l != nil; l = l.parent {
		if v, ok := l.m[k]; ok {
			return v, true
		}
	}
	return nil, false
}

func (m *merger) finish() *State {
	x := m.x
	// objects that were in the way before are looked at first
	for _, k := range x.conflicts {
		va, ok1 := lookup(m.a.heap, k)
		vb, ok2 := lookup(m.b.heap, k)
		if ok1 && ok2 {
			if _, ok := m.val(va, vb); !ok {
				return nil
			}
		}
	}
	// heaps: compare what was written above the common ancestor
	anc := map[*layer]bool{}
	for l := m.a.heap; l != nil; l = l.parent {
		anc[l] = true
	}
	var common *layer
	for l := m.b.heap; l != nil; l = l.parent {
		if anc[l] {
			common = l
			break
		}
	}
	wa, wb := map[int]Val{}, map[int]Val{}
	collect := func(from *layer, w map[int]Val) {
		for l := from; l != common; l = l.parent {
			for k, v := range l.m {
				if _, ok := w[k]; !ok {
					w[k] = v
				}
			}
		}
	}
	collect(m.a.heap, wa)
	collect(m.b.heap, wb)
	nw := map[int]Val{}
	inCommon := func(k int) (Val, bool) {
		for l := common; l != nil; l = l.parent {
			if v, ok := l.m[k]; ok {
				return v, true
			}
		}
		return nil, false
	}
	ids := make([]int, 0, len(wa)+len(wb))
	for k := range wa {
		ids = append(ids, k)
	}
	for k := range wb {
		if _, ok := wa[k]; !ok {
			ids = append(ids, k)
		}
	}
	sort.Ints(ids)
	for _, k := range ids {
		va, ok1 := wa[k]
		vb, ok2 := wb[k]
		if !ok1 {
			va, ok1 = inCommon(k)
		}
		if !ok2 {
			vb, ok2 = inCommon(k)
		}
		if !ok1 {
			nw[k] = vb
			continue
		}
		if !ok2 {
			nw[k] = va
			continue
		}
		v, ok := m.val(va, vb)
		if !ok {
			x.conflicts = append(x.conflicts, k)
			if n := len(x.conflicts); n > 6 {
				x.conflicts = x.conflicts[n-6:]
			}
			return nil
		}
		nw[k] = v
	}
	st := &State{}
	*st = *m.a
	d := 1
	if common != nil {
		d = common.depth + 1
	}
	st.heap = &layer{m: nw, parent: common, depth: d}
	st.pc = append([]*Term{}, m.pre...)
	st.known = nil
	for _, t := range m.a.known {
		for _, u := range m.b.known {
			if t == u {
				st.known = append(st.known, t)
				break
			}
		}
	}
	or := x.c.Or(m.ra, m.rb)
	st.addPC(or)
	if st.model == nil {
		st.model = m.b.model
	}
	st.opq = nil
	for _, p := range m.a.opq {
		for _, q := range m.b.opq {
			if p.fn == q.fn && sameVal(Tuple(p.arg), Tuple(q.arg)) && sameVal(p.res, q.res) {
				st.opq = append(st.opq, p)
			}
		}
	}
	if len(m.b.notes) > len(st.notes) {
		st.notes = m.b.notes
	}
	if m.b.epoch < st.epoch {
		st.epoch = m.b.epoch
	}
	return st
}
