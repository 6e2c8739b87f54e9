package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func sameKey(a, b Val) bool {
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if ok && ok2 {
		return x == y
	}
	s, ok := a.(VStr)
	t, ok2 := b.(VStr)
	return ok && ok2 && eqRope(s, t) == True
}

// peek: can the exit condition of the loop header be decided now?
func (ex *Exec) peek(fr *Frame, b *BState, h *ssa.BasicBlock) (decided bool) {
	// a header that cannot be evaluated by itself: cut the loop if it has invariants
	blind := len(ex.invs[fr.fn]) == 0
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return blind
	}
	bb := b.fork(b.st.clone())
	om := ex.muteVC
	ex.muteVC = true
	defer func() {
		ex.muteVC = om
		if r := recover(); r != nil {
			if _, ok := r.(UnsupErr); ok {
				decided = true
				return
			}
			panic(r)
		}
	}()
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Next:
			r, ok := ex.eval(fr, bb, x.Iter).(VRange)
			if !ok {
				return true
			}
			mc := ex.mapContent(bb.st, r.Map, r.MT)
			if mc.Has == nil {
				return true
			}
			if mc.Card != nil {
				if _, ok := constIdx(mc.Card); ok {
					return true
				}
			}
			return false
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || (bi.Name() != "len" && bi.Name() != "cap") {
				return blind
			}
			_, args := ex.callArgs(fr, bb, &x.Call)
			outs := ex.builtin(bb.st, x.Call.Value.(*ssa.Builtin).Name(), &x.Call, args, in)
			if len(outs) != 1 {
				return true
			}
			bb.env[fr.info.idx[x]] = outs[0].Ret[0]
		default:
			f := ex.instr(fr, bb, in)
			if f != nil && len(f) != 1 {
				return true
			}
			if len(f) == 1 {
				bb = f[0]
			}
		}
	}
	c, ok := ex.eval(fr, bb, last.Cond).(*Term)
	if !ok {
		return true
	}
	if c == True || c == False {
		return true
	}
	if b.iter[h] >= 2 && len(ex.invs[fr.fn]) > 0 {
		return false // symbolic bound: do not go on unrolling a loop that has invariants
	}
	if bb.st.has(c) || bb.st.has(Not(c)) {
		return true
	}
	return !(ex.feasible(bb.st, c) && ex.feasible(bb.st, Not(c)))
}

// loopHeader decides between unrolling (handled=false) and cutting with invariants.
func (ex *Exec) loopHeader(fr *Frame, b *BState, h, stop *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) ([]*BState, bool) {
	if ex.peek(fr, b, h) {
		return nil, false
	}
	invs := ex.invs[fr.fn]
	if ex.pure > 0 && len(invs) == 0 {
		return nil, false
	}
	if len(invs) == 0 {
		if b.iter[h] > 80 {
			panic(Unsup("loop in %s needs an invariant", fr.fn))
		}
		return nil, false
	}
	return ex.cutLoop(fr, b, h, stop, body, invs), true
}

type cand struct {
	fn   *ssa.Function
	bind []func(b *BState) Val
	desc string
}

func (ex *Exec) cutLoop(fr *Frame, b *BState, h, stop *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, invs []*ssa.Function) []*BState {
	// 1. which pre-existing locations may the body modify?
	mods := map[string]*wentry{}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	pre := b.st
	var nonNil []*ssa.Phi
	// pointers that are nil on entry may be nil or not on later iterations
	var nilPhis []*ssa.Phi
	for _, p := range phis {
		if v, ok := b.env[fr.info.idx[p]].(VPtr); ok && v.Obj == 0 {
			if _, ok := encSorts(under(p.Type()).(*types.Pointer).Elem()); ok && len(nilPhis) < 2 {
				nilPhis = append(nilPhis, p)
			}
		}
	}
	nvar := 1 << len(nilPhis)
	mkHavoc := func(variant int) *BState {
		hb := b.fork(pre.clone())
		nonNil = nil
	phiLoop:
		for _, p := range phis {
			for i, np := range nilPhis {
				if np == p {
					if variant>>i&1 == 0 {
						hb.env[fr.info.idx[p]] = VPtr{}
					} else {
						hb.env[fr.info.idx[p]] = ex.fresh(hb.st, p.Type(), "loop."+p.Comment)
					}
					continue phiLoop
				}
			}
			cur := b.env[fr.info.idx[p]]
			hv, isPtr := ex.havocLike(hb.st, p.Type(), cur, "loop."+p.Comment)
			if isPtr {
				nonNil = append(nonNil, p)
			}
			hb.env[fr.info.idx[p]] = hv
		}
		var ks []string
		for k := range mods {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			ex.havocLoc(hb.st, mods[k])
		}
		return hb
	}
	runBody := func(hb *BState, quiet bool) []*BState {
		sub := &Frame{fn: fr.fn, info: fr.info}
		if !quiet {
			sub = fr
		}
		hb.iter[h] = -1
		// run the header block itself first, then until h is reached again
		return ex.runLoopBody(sub, hb, h, stop, body, quiet)
	}
	om := ex.muteVC
	ex.loopDry++
	for round := 0; ; round++ {
		if round > 8 {
			panic(Unsup("loop modification set does not converge in %s", fr.fn))
		}
		wl := map[string]*wentry{}
		for i := 0; i < nvar; i++ {
			hb := mkHavoc(i)
			hb.st.wlog = wl
			ex.muteVC = true
			runBody(hb, true)
			ex.muteVC = om
		}
		grew := false
		for _, e := range wl {
			if _, ok := pre.heap[e.obj]; !ok {
				if globalHeap[e.obj] == nil {
					continue
				}
			}
			// truncate at symbolic selectors
			p := e.path
			for i, s := range p {
				if s.T != nil {
					p = p[:i]
					break
				}
			}
			k := fmt.Sprintf("%d|%s", e.obj, pathKey(p))
			if covered(mods, e.obj, p) {
				continue
			}
			mods[k] = &wentry{e.obj, p}
			grew = true
		}
		if pre.wlog != nil {
			for k, e := range wl {
				pre.wlog[k] = e
			}
		}
		if !grew {
			break
		}
	}
	// 2. candidates
	cands := ex.candidates(fr, b, h, phis, invs)
	evalC := func(c *cand, bs *BState) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(UnsupErr); ok {
					if ex.houdiniLog {
						fmt.Fprintln(os.Stderr, "  inv eval", c.desc, u.Msg)
					}
					t = nil
					return
				}
				panic(r)
			}
		}()
		var args []Val
		for _, f := range c.bind {
			v := f(bs)
			if v == nil {
				return nil
			}
			args = append(args, v)
		}
		return ex.evalPureBool(bs.st, c.fn, args)
	}
	valid := func(st *State, g *Term) bool {
		if g == nil {
			return false
		}
		if g == True || st.has(g) {
			return true
		}
		if g == False {
			return !ex.feasible(st, True)
		}
		return ex.quickValid(st.pc, g)
	}
	var live []*cand
	{
		var ts []*Term
		var qs []query
		var kept []*cand
		seenT := map[*Term]bool{}
		for _, c := range cands {
			t := evalC(c, b)
			ts = append(ts, t)
			kept = append(kept, c)
			if t != nil && !seenT[t] {
				qs = append(qs, query{b.st.pc, t})
			}
		}
		ex.prefetch(qs)
		for i, c := range kept {
			if valid(b.st, ts[i]) {
				live = append(live, c)
			} else if ex.houdiniLog {
				fmt.Fprintln(os.Stderr, "  inv", c.desc, "fails on entry:", ts[i])
			}
		}
	}
	assumeAll := func(hb *BState) {
		for _, c := range live {
			if t := evalC(c, hb); t != nil {
				hb.st.assume(t)
			}
		}
	}
	for {
		var arr []*BState
		for i := 0; i < nvar; i++ {
			hb := mkHavoc(i)
			assumeAll(hb)
			ex.muteVC = true
			arr = append(arr, runBody(hb, true)...)
			ex.muteVC = om
		}
		var keep []*cand
		ct := make([][]*Term, len(live))
		var qs []query
		for i, c := range live {
			for _, a := range arr {
				t := evalC(c, a)
				ct[i] = append(ct[i], t)
				if t != nil {
					qs = append(qs, query{a.st.pc, t})
				}
			}
		}
		ex.prefetch(qs)
		for i, c := range live {
			ok := true
			for j, a := range arr {
				if t := ct[i][j]; !valid(a.st, t) {
					ok = false
					if ex.houdiniLog {
						fmt.Fprintln(os.Stderr, "  inv", c.desc, "not preserved:", t)
						if os.Getenv("GOVC_DUMP") != "" {
							for _, p := range a.st.pc {
								fmt.Fprintln(os.Stderr, "      pc", p)
							}
						}
					}
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		if len(keep) == len(live) {
			break
		}
		live = keep
	}
	ex.loopDry--
	if ex.houdiniLog {
		for _, c := range live {
			fmt.Fprintln(os.Stderr, "  inv kept", c.desc)
		}
	}
	// 3. record obligations and continue from the cut
	for _, c := range live {
		ex.oblige(b.st, "loop-entry:"+c.fn.Name(), ex.pos(h.Instrs[0].Pos()), evalC(c, b))
	}
	for _, p := range nonNil {
		if v, ok := b.env[fr.info.idx[p]].(VPtr); ok && v.Obj == 0 {
			panic(Unsup("loop pointer nil at entry"))
		}
	}
	var res []*BState
	for i := 0; i < nvar; i++ {
		hb := mkHavoc(i)
		assumeAll(hb)
		nn := nonNil
		hb.iter[h] = -1
		res = append(res, ex.runLoopFinal(fr, hb, h, stop, func(a *BState) {
			for _, p := range nn {
				if v, ok := a.env[fr.info.idx[p]].(VPtr); ok && v.Obj == 0 {
					ex.oblige(a.st, "loop-nonnil", "", False)
				}
			}
			for _, c := range live {
				t := evalC(c, a)
				if t == nil {
					t = False
				}
				ex.oblige(a.st, "loop-preserved:"+c.fn.Name(), ex.pos(h.Instrs[0].Pos()), t)
			}
		})...)
	}
	return res
}

func covered(m map[string]*wentry, obj int, p []Sel) bool {
	for i := 0; i <= len(p); i++ {
		if _, ok := m[fmt.Sprintf("%d|%s", obj, pathKey(p[:i]))]; ok {
			return true
		}
	}
	return false
}

// runLoopBody executes one arbitrary iteration and returns the states arriving back at h.
func (ex *Exec) runLoopBody(fr *Frame, hb *BState, h, stop *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, quiet bool) []*BState {
	var back []*BState
	ex.cuts = append(ex.cuts, &cut{fr: fr, h: h, onBack: func(a *BState) { back = append(back, a) }, body: body, dropExit: true})
	defer func() { ex.cuts = ex.cuts[:len(ex.cuts)-1] }()
	hb.iter[h] = -2
	ex.runFrom(fr, hb, h, stop, true)
	return back
}

func (ex *Exec) runLoopFinal(fr *Frame, hb *BState, h, stop *ssa.BasicBlock, onBack func(*BState)) []*BState {
	ex.cuts = append(ex.cuts, &cut{fr: fr, h: h, onBack: onBack})
	defer func() { ex.cuts = ex.cuts[:len(ex.cuts)-1] }()
	hb.iter[h] = -2
	return ex.runFrom(fr, hb, h, stop, true)
}

type cut struct {
	fr       *Frame
	h        *ssa.BasicBlock
	onBack   func(*BState)
	body     map[*ssa.BasicBlock]bool
	dropExit bool
}

func (ex *Exec) cutFor(fr *Frame, h *ssa.BasicBlock) *cut {
	for i := len(ex.cuts) - 1; i >= 0; i-- {
		if ex.cuts[i].fr == fr && ex.cuts[i].h == h {
			return ex.cuts[i]
		}
	}
	return nil
}

// exitDropped: in a dry run, leaving the loop ends the path.
func (ex *Exec) exitDropped(fr *Frame, blk *ssa.BasicBlock) bool {
	if len(ex.cuts) == 0 {
		return false
	}
	c := ex.cuts[len(ex.cuts)-1]
	return c.fr == fr && c.dropExit && !c.body[blk]
}

// havocLike returns an arbitrary value of the same shape.
func (ex *Exec) havocLike(st *State, t types.Type, v Val, name string) (Val, bool) {
	switch x := v.(type) {
	case *Term:
		return Fresh(name, x.S), false
	case VStr:
		return VStr{[]Seg{{A: Fresh(name, StrSort)}}}, false
	case *VArr, *VStruct, VBig:
		return ex.havocVal(st, t, v, name), false
	case VSlice:
		sl := under(t).(*types.Slice)
		if isByte(sl.Elem()) {
			return ex.bytesFromRope(st, VStr{[]Seg{{A: Fresh(name, StrSort)}}}, name), false
		}
		if _, ok := encSorts(t); ok {
			return ex.fresh(st, t, name), false
		}
	case VPtr:
		if x.Obj == 0 {
			return VPoison{name}, false
		}
		et := under(t).(*types.Pointer).Elem()
		if _, ok := encSorts(et); ok {
			return ex.fresh(st, t, name), true
		}
		return v, false // identity pointer: must not change (checked by poison on mismatch)
	case VIface:
		if isErrorType(t) {
			return VIface{Opq: Fresh(name, BV(32))}, false
		}
		return VPoison{name}, false
	case VRange, VMap, VFunc, VOpaque:
		return v, false
	case VTuple:
		return VPoison{name}, false
	case nil:
		return nil, false
	}
	return VPoison{name}, false
}

type VPoison struct{ Name string }

func (ex *Exec) havocVal(st *State, t types.Type, v Val, name string) Val {
	switch x := v.(type) {
	case *Term:
		return Fresh(name, x.S)
	case VBig:
		return VBig{T: Fresh(name, BV(bigW))}
	case VStr:
		return VStr{[]Seg{{A: Fresh(name, StrSort)}}}
	case *VArr:
		if t != nil {
			if a, ok := under(t).(*types.Array); ok && isByte(a.Elem()) && a.Len() > 0 {
				w := Fresh(name, BV(int(8*a.Len())))
				e := make([]Val, len(x.E))
				for i, b := range leBytes(w) {
					e[i] = b
				}
				return &VArr{e}
			}
		}
		allBytes := len(x.E) > 0
		for _, y := range x.E {
			if tt, ok := y.(*Term); !ok || tt.S != BV(8) {
				allBytes = false
			}
		}
		e := make([]Val, len(x.E))
		if allBytes {
			w := Fresh(name, BV(8*len(x.E)))
			for i, b := range leBytes(w) {
				e[i] = b
			}
			return &VArr{e}
		}
		var et types.Type
		if t != nil {
			switch u := under(t).(type) {
			case *types.Array:
				et = u.Elem()
			case *types.Slice:
				et = u.Elem()
			}
		}
		for i := range e {
			e[i] = ex.havocVal(st, et, x.E[i], name)
		}
		return &VArr{e}
	case *VStruct:
		f := make([]Val, len(x.F))
		var u *types.Struct
		if t != nil {
			u, _ = under(t).(*types.Struct)
		}
		for i := range f {
			var ft types.Type
			if u != nil {
				ft = u.Field(i).Type()
			}
			f[i] = ex.havocVal(st, ft, x.F[i], name)
		}
		return &VStruct{f}
	case VSymArr:
		n := VSymArr{Elem: x.Elem, Len: x.Len}
		for _, a := range x.Arr {
			n.Arr = append(n.Arr, Fresh(name, a.S))
		}
		return n
	case VRopeBuf:
		l := x.S.length()
		s := Fresh(name, StrSort)
		st.assume(Eq(strLen(s), l))
		return VRopeBuf{VStr{[]Seg{{A: s}}}}
	case *VMapC:
		if x.Has == nil {
			// a loop that only deletes: what was there may be gone
			for o, w := range ex.mapWritten {
				if w && (st.heap[o] == nil || st.heap[o].V == Val(x)) {
					panic(Unsup("havoc of list-mode map"))
				}
			}
			n := *x
			n.L = nil
			for i, u := range x.L {
				last := true
				for _, w := range x.L[i+1:] {
					if sameKey(u.K, w.K) {
						last = false
					}
				}
				if last {
					if !u.Del {
						o := Fresh(name+".kept", BoolSort)
						if u.Opt != nil {
							o = And(o, u.Opt)
						}
						u.Opt = o
					}
					n.L = append(n.L, u)
				}
			}
			n.Card = nil
			return &n
		}
		n := *x
		n.Card = nil
		n.Has = Fresh(name, x.Has.S)
		n.Vals = nil
		for _, a := range x.Vals {
			n.Vals = append(n.Vals, Fresh(name, a.S))
		}
		return &n
	case rangeState:
		if x.seen == nil {
			panic(Unsup("havoc of list-mode range"))
		}
		return rangeState{seen: Fresh(name, x.seen.S), n: -1}
	case VSlice, VPtr, VIface, VMap, VFunc:
		if t == nil {
			return VPoison{name}
		}
		r, _ := ex.havocLike(st, t, v, name)
		return r
	case nil:
		return nil
	}
	return VPoison{name}
}

func typeAt(t types.Type, p []Sel) types.Type {
	for _, s := range p {
		if t == nil {
			return nil
		}
		switch u := under(t).(type) {
		case *types.Struct:
			t = u.Field(s.I).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (ex *Exec) havocLoc(st *State, e *wentry) {
	o := st.obj(e.obj)
	cur := ex.readPath(st, o.V, e.path, nil)
	nv := ex.havocVal(st, typeAt(o.T, e.path), cur, "mod")
	st.setObj(e.obj, ex.writePath(st, st.obj(e.obj).V, e.path, nv))
}

// candidates instantiates invariant functions over the values in scope.
func (ex *Exec) candidates(fr *Frame, b *BState, h *ssa.BasicBlock, phis []*ssa.Phi, invs []*ssa.Function) []*cand {
	type src struct {
		name string
		t    types.Type
		get  func(b *BState) Val
		rank int
	}
	var srcs []src
	for _, p := range phis {
		i := fr.info.idx[p]
		srcs = append(srcs, src{p.Comment, p.Type(), func(b *BState) Val { return b.env[i] }, 0})
	}
	for _, p := range fr.fn.Params {
		i := fr.info.idx[p]
		srcs = append(srcs, src{p.Name(), p.Type(), func(b *BState) Val { return b.env[i] }, 1})
	}
	for _, p := range fr.fn.FreeVars {
		i := fr.info.idx[p]
		srcs = append(srcs, src{p.Name(), p.Type(), func(b *BState) Val { return b.env[i] }, 1})
		if pt, ok := p.Type().(*types.Pointer); ok {
			srcs = append(srcs, src{p.Name(), pt.Elem(), func(b *BState) Val {
				ptr, ok := b.env[i].(VPtr)
				if !ok || ptr.Obj == 0 {
					return nil
				}
				return ex.loadRaw(b.st, ptr)
			}, 1})
		}
	}
	for _, blk := range fr.fn.Blocks {
		if blk != h && !blk.Dominates(h) {
			continue
		}
		if blk == h {
			continue
		}
		for _, in := range blk.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			i := fr.info.idx[v]
			if b.env[i] == nil {
				continue
			}
			switch x := in.(type) {
			case *ssa.Range:
				// the keys a map loop has visited
				mt, ok := under(x.X.Type()).(*types.Map)
				if !ok {
					continue
				}
				srcs = append(srcs, src{"seen", types.NewMap(mt.Key(), types.Typ[types.Bool]), func(b *BState) Val {
					r, ok := b.env[i].(VRange)
					if !ok {
						return nil
					}
					rs, ok := b.st.obj(r.Cell).V.(rangeState)
					if !ok || rs.seen == nil {
						return nil
					}
					c := &VMapC{KT: mt.Key(), VT: types.Typ[types.Bool], KSort: rs.seen.S.Key, Has: rs.seen, Vals: []*Term{rs.seen}}
					return VMap{Obj: b.st.alloc(nil, c)}
				}, 2})
			case *ssa.Alloc:
				srcs = append(srcs, src{x.Comment, x.Type(), func(b *BState) Val { return b.env[i] }, 2})
				et := x.Type().(*types.Pointer).Elem()
				srcs = append(srcs, src{x.Comment, et, func(b *BState) Val {
					p, ok := b.env[i].(VPtr)
					if !ok || p.Obj == 0 {
						return nil
					}
					return ex.loadRaw(b.st, p)
				}, 2})
			case *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Slice, *ssa.BinOp, *ssa.UnOp, *ssa.Convert:
				if _, isT := v.Type().(*types.Tuple); isT {
					continue
				}
				nm := ""
				if p, ok := in.(*ssa.Phi); ok {
					nm = p.Comment
				}
				srcs = append(srcs, src{nm, v.Type(), func(b *BState) Val { return b.env[i] }, 3})
			}
		}
	}
	var out []*cand
	for _, f := range invs {
		opts := make([][]src, len(f.Params))
		total := 1
		for k, p := range f.Params {
			var named, typed []src
			for _, s := range srcs {
				if !types.Identical(s.t, p.Type()) {
					continue
				}
				typed = append(typed, s)
				if s.name == p.Name() {
					named = append(named, s)
				}
			}
			if g, ok := ex.ghostArgs[p.Name()]; ok && len(named) == 0 {
				gv := g
				named = []src{{p.Name(), p.Type(), func(*BState) Val { return gv }, 0}}
			}
			if len(named) > 0 && named[0].rank == 0 {
				n := 0
				for n < len(named) && named[n].rank == 0 {
					n++
				}
				named = named[:n]
			}
			if len(named) > 0 {
				opts[k] = named
			} else {
				opts[k] = typed
			}
			if len(opts[k]) > 12 {
				opts[k] = opts[k][:12]
			}
			total *= len(opts[k])
		}
		if total == 0 || total > 400 {
			if ex.houdiniLog {
				fmt.Fprintf(os.Stderr, "  inv %s: %d instantiations in %s\n", f.Name(), total, fr.fn)
				for k, p := range f.Params {
					fmt.Fprintf(os.Stderr, "     %s: %d\n", p.Name(), len(opts[k]))
				}
			}
			if total == 0 {
				continue
			}
		}
		idx := make([]int, len(opts))
		for n := 0; n < total && n < 64; n++ {
			c := &cand{fn: f, desc: f.Name() + "("}
			for k := range opts {
				s := opts[k][idx[k]]
				c.bind = append(c.bind, s.get)
				c.desc += s.name + fmt.Sprintf("#%d,", idx[k])
			}
			c.desc += ")"
			out = append(out, c)
			for k := len(idx) - 1; k >= 0; k-- {
				idx[k]++
				if idx[k] < len(opts[k]) {
					break
				}
				idx[k] = 0
			}
		}
	}
	return out
}

type query struct {
	pc []*Term
	g  *Term
}

// prefetch decides a batch of queries in parallel.
func (ex *Exec) prefetch(qs []query) {
	type job struct {
		key  [2]int
		txt  string
		ptxt string
		id   int
	}
	var jobs []job
	for _, q := range qs {
		if q.g == True || q.g == False {
			continue
		}
		key := [2]int{App("pc", USort("PC"), q.pc...).id, q.g.id}
		if _, ok := ex.qcache[key]; ok {
			continue
		}
		ex.qcache[key] = false
		as, goal := skolem(append(append([]*Term{}, q.pc...), Not(q.g)))
		vcSeq++
		txt, ptxt := ex.queryTexts(as, goal)
		jobs = append(jobs, job{key, txt, ptxt, vcSeq})
	}
	res := make([]bool, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range jobs {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			ex.take()
			defer func() { ex.give(); <-sem; wg.Done() }()
			r, _, _ := solveTexts(jobs[i].txt, jobs[i].ptxt, 3, ex.houdiniT2, ex.tmp, jobs[i].id+1000000)
			res[i] = r == "unsat"
		}()
	}
	wg.Wait()
	for i, j := range jobs {
		ex.qcache[j.key] = res[i]
	}
}

func (ex *Exec) quickValid(pc []*Term, g *Term) bool {
	key := [2]int{App("pc", USort("PC"), pc...).id, g.id}
	if r, ok := ex.qcache[key]; ok {
		return r
	}
	as, goal := skolem(append(append([]*Term{}, pc...), Not(g)))
	vcSeq++
	txt, ptxt := ex.queryTexts(as, goal)
	ex.take()
	r, _, _ := solveTexts(txt, ptxt, 3, ex.houdiniT2, ex.tmp, vcSeq)
	ex.give()
	ex.qcache[key] = r == "unsat"
	return r == "unsat"
}

var vcSeq int
