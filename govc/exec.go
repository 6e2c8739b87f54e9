package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VC struct {
	Contract string
	Label    string
	Pos      string
	PC       []*Term  `json:"-"`
	Goal     *Term    `json:"-"`
	Cover    bool     // satisfiability expected
	Trace    []string `json:"-"`
	Status   string   // discharged, failed, unknown
	Backend  string
	Model    string
	Secs     float64
	Trivial  bool
}

type Exec struct {
	take, give    func()       // one token of the pipe that bounds the solvers running at a time
	mapWritten    map[int]bool // list-mode maps written (not just deleted from) inside loops
	prog          *ssa.Program
	pkgs          map[string]*ssa.Package
	fns           map[*ssa.Function]*FnInfo
	contracts     map[*ssa.Function]*Contract // by target, use-able
	byName        map[string]*Contract
	invs          map[*ssa.Function][]*ssa.Function // loop invariants by target
	cur           *Contract
	vcs           []*VC
	feas          *Solver
	used          map[string]bool // contracts used
	trusted       map[string]bool // externals modelled / assumed
	inlined       map[string]bool
	spareCap      bool
	depth         int
	steps         int
	muteVC        bool // when set, obligations are not recorded (dry run / pure evaluation)
	callStack     []*ssa.Function
	ghostArgs     map[string]Val
	reached       map[string]bool
	budget        int
	recFuel       int
	pure          int // >0: evaluating spec; panics are ignored paths
	loopDry       int
	houdiniLog    bool
	sawDec        bool
	memo          map[string]bool
	specPlain     map[*ssa.Function]int
	specMemo      map[string][]*Term
	specFns       map[*ssa.Function]bool
	contractFiles map[string]bool
	foreign       int
	freshIn       *types.Named
	nilable       map[string]bool
	nilSites      []int
	auto          map[*ssa.Function][]*Contract
	lemCap        *lemCap
	lazyInit      map[*ssa.Global]bool
	globals       map[*ssa.Global]int
	globalOf      map[int]*ssa.Global
	initDone      map[*ssa.Package]bool
	cuts          []*cut
	qcache        map[[2]int]bool
	tmp           string
	houdiniT2     int
	stubs         map[string]map[string]*ssa.Function
	onlyRecs      map[string]bool
	useStack      []*Contract
	verifyFn      *ssa.Function
	recs          map[*ssa.Function]bool
	unfolded      map[*Term][]*Term
	unfoldDefs    map[string][]*Term
	warnings      []string
}

type FnInfo struct {
	idx    map[ssa.Value]int
	n      int
	defBlk []*ssa.BasicBlock
	ipdom  map[*ssa.BasicBlock]*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

type Frame struct {
	fn   *ssa.Function
	info *FnInfo
	out  []*Outcome
}

type BState struct {
	st     *State
	env    []Val
	defers []deferred
	prev   *ssa.BasicBlock
	iter   map[*ssa.BasicBlock]int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type Outcome struct {
	St  *State
	Ret []Val
}

func (ex *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := ex.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value, b *ssa.BasicBlock) {
		fi.idx[v] = fi.n
		fi.n++
		fi.defBlk = append(fi.defBlk, b)
	}
	for _, p := range fn.Params {
		add(p, nil)
	}
	for _, p := range fn.FreeVars {
		add(p, nil)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v, b)
			}
		}
	}
	fi.ipdom = ipdoms(fn)
	fi.loops = natLoops(fn)
	ex.fns[fn] = fi
	return fi
}

// ipdoms computes immediate postdominators; nil = virtual exit.
func ipdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// pdom sets as bitsets; blocks that end in panic are treated as absent
	type set = []bool
	pd := make([]set, n)
	isExit := func(b *ssa.BasicBlock) bool {
		if len(b.Instrs) == 0 {
			return false
		}
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}
	for i, b := range fn.Blocks {
		pd[i] = make(set, n)
		if isExit(b) {
			pd[i][i] = true
		} else {
			for j := range pd[i] {
				pd[i][j] = true
			}
		}
	}
	reach := make([]bool, n) // can reach exit
	for ch := true; ch; {
		ch = false
		for i, b := range fn.Blocks {
			if reach[i] {
				continue
			}
			if isExit(b) {
				reach[i] = true
				ch = true
				continue
			}
			for _, s := range b.Succs {
				if reach[s.Index] {
					reach[i] = true
					ch = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if isExit(b) {
				continue
			}
			nw := make(set, n)
			first := true
			for _, s := range b.Succs {
				if !reach[s.Index] {
					continue
				}
				if first {
					copy(nw, pd[s.Index])
					first = false
				} else {
					for j := range nw {
						nw[j] = nw[j] && pd[s.Index][j]
					}
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	cnt := func(i int) int {
		c := 0
		for _, x := range pd[i] {
			if x {
				c++
			}
		}
		return c
	}
	for i, b := range fn.Blocks {
		if !reach[i] {
			continue
		}
		best, bc := -1, -1
		for j := range pd[i] {
			if j != i && pd[i][j] && reach[j] {
				if c := cnt(j); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			res[b] = fn.Blocks[best]
		}
	}
	return res
}

func natLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := loops[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					loops[h] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return loops
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	x := ex.prog.Fset.Position(p)
	f := x.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// ---- obligations

func (ex *Exec) oblige(st *State, label string, pos string, goal *Term) bool {
	if ex.muteVC {
		st.assume(goal)
		return goal != False
	}
	if ex.pure > 0 && strings.HasPrefix(label, "no-panic") {
		st.assume(goal)
		return goal != False
	}
	cn := "?"
	if ex.cur != nil {
		cn = ex.cur.Name
	}
	vc := &VC{Contract: cn, Label: label, Pos: pos, Goal: goal, PC: st.pc[:len(st.pc):len(st.pc)], Trace: st.trace}
	if goal == True || st.has(goal) {
		vc.Status = "discharged"
		vc.Backend = "simplifier"
		vc.Trivial = true
	}
	ex.vcs = append(ex.vcs, vc)
	st.assume(goal)
	return goal != False
}

// safe records a no-panic obligation; returns false when the path cannot continue.
func (ex *Exec) safe(st *State, kind string, in ssa.Instruction, goal *Term) bool {
	if goal == True {
		return true
	}
	where := ""
	if in != nil {
		where = ex.pos(in.Pos())
		if where == "" && in.Parent() != nil {
			where = in.Parent().Name()
		}
	}
	fn := ""
	if in != nil && in.Parent() != nil {
		fn = in.Parent().RelString(nil)
		fn = strings.ReplaceAll(fn, "github.com/iden3/go-iden3-core/", "")
	}
	if goal == False && !ex.feasible(st, True) {
		return false
	}
	return ex.oblige(st, "no-panic:"+kind+":"+fn, where, goal)
}

func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == False {
		return false
	}
	if st.has(Not(c)) {
		return false
	}
	if c == True && len(st.pc) == 0 {
		return true
	}
	return ex.feas.Sat(st.pc, c)
}

type branch struct {
	st *State
	ok bool
}

// fork splits a state on a condition, pruning infeasible sides.
func (ex *Exec) fork(st *State, c *Term) (t, f *State) {
	if c == True {
		return st, nil
	}
	if c == False {
		return nil, st
	}
	if st.has(c) {
		return st, nil
	}
	if st.has(Not(c)) {
		return nil, st
	}
	tf := ex.feasible(st, c)
	ff := ex.feasible(st, Not(c))
	if tf {
		t = st
		if ff {
			t = st.clone()
		}
		t.assume(c)
	}
	if ff {
		f = st
		f.assume(Not(c))
	}
	return
}

// ---- calls

func (ex *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val) []*Outcome {
	if fn.Blocks == nil {
		return ex.external(st, fn, args)
	}
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 60 {
		panic(Unsup("call depth exceeded at %s", fn))
	}
	for i := len(ex.callStack) - 1; i >= 0; i-- {
		if ex.callStack[i] == fn && ex.pure == 0 {
			n := 0
			for _, f := range ex.callStack {
				if f == fn {
					n++
				}
			}
			if n > 40 {
				panic(Unsup("recursion without contract: %s", fn))
			}
			break
		}
	}
	ex.callStack = append(ex.callStack, fn)
	defer func() { ex.callStack = ex.callStack[:len(ex.callStack)-1] }()
	if p := fn.Pkg; p != nil && ex.loopDry == 0 && strings.HasPrefix(p.Pkg.Path(), modPath) {
		n := fn.RelString(nil)
		if !strings.Contains(n, ".vc_") && !strings.Contains(n, ".spec_") && !strings.Contains(n, ".lem_") && !strings.Contains(n, "zzverif") {
			ex.inlined[n] = true
		}
	}
	info := ex.info(fn)
	env := make([]Val, info.n)
	if len(args) != len(fn.Params) {
		panic(Unsup("arity %s", fn))
	}
	for i, p := range fn.Params {
		env[info.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[info.idx[p]] = bind[i]
	}
	fr := &Frame{fn: fn, info: info}
	ex.run(fr, &BState{st: st, env: env, iter: map[*ssa.BasicBlock]int{}}, fn.Blocks[0], nil)
	outs := fr.out
	if len(outs) > 1 {
		outs = ex.mergeOutcomes(outs)
	}
	return outs
}

func (ex *Exec) mergeOutcomes(outs []*Outcome) []*Outcome {
	var res []*Outcome
	for _, o := range outs {
		done := false
		for i, r := range res {
			s, c, ok := mergeStates(r.St, o.St)
			if !ok {
				continue
			}
			rets := make([]Val, len(o.Ret))
			good := true
			for k := range rets {
				m, ok := mergeVal(c, r.Ret[k], o.Ret[k])
				if !ok {
					good = false
					break
				}
				rets[k] = m
			}
			if good {
				res[i] = &Outcome{s, rets}
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	if len(res) < len(outs) && len(res) > 1 {
		return ex.mergeOutcomes(res)
	}
	return res
}

func cloneEnv(e []Val) []Val { return append([]Val{}, e...) }

func (b *BState) fork(st *State) *BState {
	it := make(map[*ssa.BasicBlock]int, len(b.iter))
	for k, v := range b.iter {
		it[k] = v
	}
	return &BState{st: st, env: cloneEnv(b.env), defers: b.defers[:len(b.defers):len(b.defers)], prev: b.prev, iter: it}
}

// run executes from blk until stop (exclusive) and returns the states arriving at stop with phis of stop evaluated.
func (ex *Exec) run(fr *Frame, b *BState, blk, stop *ssa.BasicBlock) []*BState {
	return ex.runFrom(fr, b, blk, stop, false)
}

func (ex *Exec) evalPhis(fr *Frame, b *BState, blk *ssa.BasicBlock) {
	if b.prev == nil {
		return
	}
	pi := -1
	for i, p := range blk.Preds {
		if p == b.prev {
			pi = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, ex.eval(fr, b, ph.Edges[pi]))
	}
	for i, ph := range phis {
		b.env[fr.info.idx[ph]] = vals[i]
	}
}

func (ex *Exec) runFrom(fr *Frame, b *BState, blk, stop *ssa.BasicBlock, phisDone bool) []*BState {
	for {
		if !phisDone {
			ex.evalPhis(fr, b, blk)
			if blk == stop {
				return []*BState{b}
			}
		}
		phisDone = false
		if ex.exitDropped(fr, blk) {
			return nil
		}
		// loop header?
		if body, ok := fr.info.loops[blk]; ok {
			switch it := b.iter[blk]; {
			case it == -2: // entering from the invariant cut
				b.iter[blk] = -1
			case it == -1 && (b.prev == nil || body[b.prev]): // back edge of a cut loop
				if c := ex.cutFor(fr, blk); c != nil {
					c.onBack(b)
					return nil
				}
				panic(Unsup("lost loop cut"))
			default:
				if b.prev != nil && !body[b.prev] {
					b.iter[blk] = 0
				}
				if arr, handled := ex.loopHeader(fr, b, blk, stop, body); handled {
					return arr
				}
				b.iter[blk]++
				if b.iter[blk] > 5000 {
					panic(Unsup("loop unrolled too often in %s", fr.fn))
				}
			}
		}
		// reset iteration counters of inner loops handled implicitly
		next, arr, done := ex.block(fr, b, blk, stop)
		if done {
			return arr
		}
		b.prev = blk
		blk = next
	}
}

// block executes the instructions of blk. Either returns the next block, or done with arrivals.
func (ex *Exec) block(fr *Frame, b *BState, blk, stop *ssa.BasicBlock) (*ssa.BasicBlock, []*BState, bool) {
	return ex.blockOff(fr, b, blk, 0, stop)
}

func (ex *Exec) blockOff(fr *Frame, b *BState, blk *ssa.BasicBlock, i int, stop *ssa.BasicBlock) (*ssa.BasicBlock, []*BState, bool) {
	for i < len(blk.Instrs) {
		in := blk.Instrs[i]
		ex.steps++
		if ex.budget > 0 && ex.steps > ex.budget {
			panic(Unsup("step budget exceeded"))
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			i++
			continue
		case *ssa.If:
			c := ex.eval(fr, b, x.Cond).(*Term)
			if c == True || c != False && b.st.has(c) {
				return blk.Succs[0], nil, false
			}
			if c == False || b.st.has(Not(c)) {
				return blk.Succs[1], nil, false
			}
			t, f := ex.fork(b.st, c)
			if t == nil && f == nil {
				return nil, nil, true
			}
			if f == nil {
				b.st = t
				return blk.Succs[0], nil, false
			}
			if t == nil {
				b.st = f
				return blk.Succs[1], nil, false
			}
			bt := b.fork(t)
			bf := b
			bf.st = f
			bt.prev, bf.prev = blk, blk
			J := fr.info.ipdom[blk]
			inner := J
			if J == nil || J == stop {
				inner = stop
			}
			a1 := ex.runFrom(fr, bt, blk.Succs[0], inner, false)
			a2 := ex.runFrom(fr, bf, blk.Succs[1], inner, false)
			arr := append(a1, a2...)
			if inner == stop {
				if stop != nil {
					arr = ex.mergeArrivals(fr, arr, stop)
				}
				return nil, arr, true
			}
			arr = ex.mergeArrivals(fr, arr, J)
			var res []*BState
			for _, a := range arr {
				res = append(res, ex.runFrom(fr, a, J, stop, true)...)
			}
			return nil, res, true
		case *ssa.Jump:
			return blk.Succs[0], nil, false
		case *ssa.Return:
			ret := make([]Val, len(x.Results))
			for k, r := range x.Results {
				ret[k] = ex.eval(fr, b, r)
			}
			fr.out = append(fr.out, &Outcome{b.st, ret})
			return nil, nil, true
		case *ssa.Panic:
			ex.safe(b.st, "panic", in, False)
			return nil, nil, true
		case *ssa.RunDefers:
			bs := []*BState{b}
			ds := b.defers
			for k := len(ds) - 1; k >= 0; k-- {
				var nb []*BState
				for _, bb := range bs {
					outs := ex.doCall(fr, bb, ds[k].call, ds[k].fn, ds[k].args, in)
					for oi, o := range outs {
						z := bb
						if oi < len(outs)-1 {
							z = bb.fork(o.St)
						}
						z.st = o.St
						nb = append(nb, z)
					}
				}
				bs = nb
			}
			for _, bb := range bs {
				bb.defers = nil
			}
			if len(bs) == 0 {
				return nil, nil, true
			}
			if len(bs) > 1 {
				return nil, ex.contMulti(fr, bs, blk, i+1, stop), true
			}
			b = bs[0]
			i++
			continue
		case *ssa.Defer:
			fv, args := ex.callArgs(fr, b, &x.Call)
			b.defers = append(b.defers[:len(b.defers):len(b.defers)], deferred{&x.Call, fv, args})
			i++
			continue
		case *ssa.Call:
			fv, args := ex.callArgs(fr, b, &x.Call)
			outs := ex.doCall(fr, b, &x.Call, fv, args, in)
			if len(outs) == 0 {
				return nil, nil, true
			}
			set := func(bb *BState, o *Outcome) {
				bb.st = o.St
				var v Val
				switch len(o.Ret) {
				case 0:
				case 1:
					v = o.Ret[0]
				default:
					v = VTuple(o.Ret)
				}
				bb.env[fr.info.idx[x]] = v
			}
			if len(outs) == 1 {
				set(b, outs[0])
				i++
				continue
			}
			var bs []*BState
			for k, o := range outs {
				bb := b
				if k < len(outs)-1 {
					bb = b.fork(o.St)
				}
				bs = append(bs, bb)
			}
			for k, o := range outs {
				set(bs[k], o)
			}
			return nil, ex.contMulti(fr, bs, blk, i+1, stop), true
		default:
			forks := ex.instr(fr, b, in)
			if forks != nil {
				if len(forks) == 0 {
					return nil, nil, true
				}
				if len(forks) == 1 {
					b = forks[0]
					i++
					continue
				}
				return nil, ex.contMulti(fr, forks, blk, i+1, stop), true
			}
			i++
		}
	}
	panic("block without terminator")
}

// contMulti continues several states from instruction index i of blk.
func (ex *Exec) contMulti(fr *Frame, bs []*BState, blk *ssa.BasicBlock, i int, stop *ssa.BasicBlock) []*BState {
	J := fr.info.ipdom[blk]
	inner := J
	if J == nil || J == stop {
		inner = stop
	}
	var arr []*BState
	for _, b := range bs {
		arr = append(arr, ex.resume(fr, b, blk, i, inner)...)
	}
	if inner == nil {
		return arr
	}
	arr = ex.mergeArrivals(fr, arr, inner)
	if inner == stop {
		return arr
	}
	var res []*BState
	for _, a := range arr {
		res = append(res, ex.runFrom(fr, a, inner, stop, true)...)
	}
	return res
}

func (ex *Exec) resume(fr *Frame, b *BState, blk *ssa.BasicBlock, i int, stop *ssa.BasicBlock) []*BState {
	next, arr, done := ex.blockOff(fr, b, blk, i, stop)
	if done {
		return arr
	}
	b.prev = blk
	return ex.runFrom(fr, b, next, stop, false)
}

func (ex *Exec) mergeArrivals(fr *Frame, arr []*BState, J *ssa.BasicBlock) []*BState {
	if len(arr) < 2 {
		return arr
	}
	var res []*BState
	for _, a := range arr {
		done := false
		for i, r := range res {
			if m := ex.mergeB(fr, r, a, J); m != nil {
				res[i] = m
				done = true
				break
			}
		}
		if !done {
			res = append(res, a)
		}
	}
	if len(res) < len(arr) && len(res) > 1 {
		return ex.mergeArrivals(fr, res, J)
	}
	return res
}

func (ex *Exec) mergeB(fr *Frame, x, y *BState, J *ssa.BasicBlock) *BState {
	if len(x.defers) != len(y.defers) {
		return nil
	}
	s, c, ok := mergeStates(x.st, y.st)
	if !ok {
		return nil
	}
	env := make([]Val, len(x.env))
	for i := range env {
		d := fr.info.defBlk[i]
		if d != nil && d != J && !d.Dominates(J) {
			continue
		}
		a, b := x.env[i], y.env[i]
		if a == nil || b == nil {
			if a == nil && b == nil {
				continue
			}
			if d == J {
				continue // later instruction of J
			}
			continue
		}
		m, ok := mergeVal(c, a, b)
		if !ok {
			if d == J {
				// non-phi values of J from an earlier iteration are recomputed
				isPhi := false
				for _, in := range J.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && fr.info.idx[ph] == i {
						isPhi = true
					}
				}
				if !isPhi {
					continue
				}
			}
			return nil
		}
		env[i] = m
	}
	it := map[*ssa.BasicBlock]int{}
	for k, v := range x.iter {
		it[k] = v
	}
	for k, v := range y.iter {
		if v > it[k] {
			it[k] = v
		}
	}
	return &BState{st: s, env: env, defers: x.defers, prev: x.prev, iter: it}
}

// ---- operands

func (ex *Exec) eval(fr *Frame, b *BState, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return VPtr{Obj: ex.globalObj(x)}
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VFunc{Opq: "builtin:" + x.Name()}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(Unsup("value %s %T", v.Name(), v))
	}
	r := b.env[i]
	return r
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolT(constant.BoolVal(c.Value))
		}
		if u.Info()&types.IsString != 0 {
			return ropeConst(constant.StringVal(c.Value))
		}
		if w := intWidth(u); w > 0 {
			v, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return BVC(v, w)
		}
		if u.Info()&types.IsFloat != 0 {
			return Var("float$"+sanitize(c.Value.ExactString()), USort("Float"))
		}
	}
	panic(Unsup("const of type %s", t))
}

func (ex *Exec) globalObj(g *ssa.Global) int {
	if id, ok := ex.globals[g]; ok {
		return id
	}
	objCnt++
	id := objCnt
	ex.globals[g] = id
	ex.globalOf[id] = g
	et := g.Type().(*types.Pointer).Elem()
	o := &Obj{ID: id, T: et, Global: true, Input: g.String()}
	globalHeap[id] = o
	o.V = safeZero(et)
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		// external global: sentinel error or opaque
		if isErrorType(et) {
			objCnt++
			globalHeap[objCnt] = &Obj{ID: objCnt, T: errStringType, V: VOpaque{Name: g.String()}, Global: true}
			o.V = VIface{T: types.NewPointer(errStringType), V: VPtr{Obj: objCnt}}
		} else if v, ok := ex.extGlobal(g); ok {
			o.V = v
		} else {
			o.V = VOpaque{Name: g.String(), T: et}
		}
	}
	return id
}

func safeZero(t types.Type) (v Val) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(UnsupErr); ok {
				v = VOpaque{Name: "zero", T: t}
				return
			}
			panic(r)
		}
	}()
	return zeroVal(t)
}

func (ex *Exec) loadRaw(st *State, p VPtr) Val {
	if p.Obj == 0 {
		panic(Unsup("load of nil"))
	}
	return ex.readPath(st, st.obj(p.Obj).V, p.Path, nil)
}

func (ex *Exec) storeRaw(st *State, p VPtr, v Val) {
	o := st.obj(p.Obj)
	if o.RO {
		panic(Unsup("store into element of a symbolic sequence"))
	}
	if st.wlog != nil {
		st.wlog[fmt.Sprintf("%d|%s", p.Obj, pathKey(p.Path))] = &wentry{p.Obj, p.Path}
	}
	st.setObj(p.Obj, ex.writePath(st, o.V, p.Path, v))
}

var debugTrace = os.Getenv("GOVC_TRACE") != ""

func sortedInts(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
