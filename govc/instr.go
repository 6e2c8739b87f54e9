package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// instr executes one non-control instruction. It returns nil for the common
// single-successor case, or the list of successor states (possibly empty).
func (ex *Exec) instr(fr *Frame, b *BState, in ssa.Instruction) []*BState {
	st := b.st
	set := func(v ssa.Value, x Val) { b.env[fr.info.idx[v]] = x }
	switch x := in.(type) {
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		set(x, VPtr{Obj: st.alloc(et, zeroVal(et))})
	case *ssa.BinOp:
		set(x, ex.binop(fr, b, x))
		if b.env[fr.info.idx[x]] == nil {
			return []*BState{}
		}
	case *ssa.UnOp:
		v := ex.eval(fr, b, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := v.(VPtr)
			if !ok {
				panic(Unsup("load through %T", v))
			}
			if p.Obj == 0 {
				ex.safe(st, "nil-deref", in, False)
				return []*BState{}
			}
			ex.guardAccess(st, x.X, p, false, in)
			set(x, ex.load(st, p))
		case token.NOT:
			set(x, Not(v.(*Term)))
		case token.SUB:
			set(x, Neg(v.(*Term)))
		case token.XOR:
			set(x, BNot(v.(*Term)))
		default:
			panic(Unsup("unop %s", x.Op))
		}
	case *ssa.Store:
		p, ok := ex.eval(fr, b, x.Addr).(VPtr)
		if !ok {
			panic(Unsup("store address"))
		}
		if p.Obj == 0 {
			ex.safe(st, "nil-deref", in, False)
			return []*BState{}
		}
		ex.guardAccess(st, x.Addr, p, true, in)
		ex.store(st, p, ex.eval(fr, b, x.Val))
	case *ssa.FieldAddr:
		p, ok := ex.eval(fr, b, x.X).(VPtr)
		if !ok {
			panic(Unsup("field address of %T", ex.eval(fr, b, x.X)))
		}
		if p.Obj == 0 {
			ex.safe(st, "nil-deref", in, False)
			return []*BState{}
		}
		set(x, VPtr{Obj: p.Obj, Path: extPath(p.Path, Sel{I: x.Field})})
	case *ssa.Field:
		s, ok := ex.eval(fr, b, x.X).(*VStruct)
		if !ok {
			panic(Unsup("field of %T", ex.eval(fr, b, x.X)))
		}
		set(x, s.F[x.Field])
	case *ssa.IndexAddr:
		v := ex.eval(fr, b, x.X)
		idx := ex.toInt64(x.Index.Type(), ex.eval(fr, b, x.Index).(*Term))
		switch p := v.(type) {
		case VSlice:
			if !ex.safe(st, "index", in, Ult(idx, p.Len)) {
				return []*BState{}
			}
			set(x, VPtr{Obj: p.Obj, Path: extPath(p.Path, selOf(Add(p.Off, idx)))})
		case VPtr:
			at := under(x.X.Type().(*types.Pointer).Elem()).(*types.Array)
			if p.Obj == 0 {
				ex.safe(st, "nil-deref", in, False)
				return []*BState{}
			}
			if !ex.safe(st, "index", in, Ult(idx, Int(at.Len()))) {
				return []*BState{}
			}
			set(x, VPtr{Obj: p.Obj, Path: extPath(p.Path, selOf(idx))})
		default:
			panic(Unsup("index address of %T", v))
		}
	case *ssa.Index:
		v := ex.eval(fr, b, x.X)
		idx := ex.toInt64(x.Index.Type(), ex.eval(fr, b, x.Index).(*Term))
		switch c := v.(type) {
		case *VArr:
			if !ex.safe(st, "index", in, Ult(idx, Int(int64(len(c.E))))) {
				return []*BState{}
			}
			set(x, ex.readPath(st, c, []Sel{selOf(idx)}, nil))
		case VStr:
			r := ex.normRope(st, c)
			if !ex.safe(st, "index", in, Ult(idx, r.length())) {
				return []*BState{}
			}
			set(x, ropeByte(r, idx))
		default:
			panic(Unsup("index of %T", v))
		}
	case *ssa.Slice:
		return ex.sliceOp(fr, b, x)
	case *ssa.MakeSlice:
		n := ex.toInt64(x.Len.Type(), ex.eval(fr, b, x.Len).(*Term))
		c := ex.toInt64(x.Cap.Type(), ex.eval(fr, b, x.Cap).(*Term))
		et := under(x.Type()).(*types.Slice).Elem()
		if !ex.safe(st, "makeslice", in, And(Sle(Int(0), n), Sle(n, c), Slt(c, BVI(1<<45, 64)))) {
			return []*BState{}
		}
		if k, ok := constIdx(c); ok && k <= 1<<16 {
			e := make([]Val, k)
			if k > 0 {
				z := zeroVal(et)
				for i := range e {
					e[i] = z
				}
			}
			id := st.alloc(x.Type(), &VArr{e})
			set(x, VSlice{Obj: id, Off: Int(0), Len: n, Cap: c})
		} else {
			es, ok := encSorts(et)
			if !ok {
				panic(Unsup("make slice of %s with symbolic length", et))
			}
			var arr []*Term
			zp := VSymArr{Elem: et, Len: c}
			if _, isP := under(et).(*types.Pointer); isP {
				for _, s := range es {
					arr = append(arr, Fresh("mk", ArrSort(BV(64), s)))
				}
			} else {
				for _, s := range es {
					arr = append(arr, ConstArr(ArrSort(BV(64), s), zeroTerm(s)))
				}
			}
			zp.Arr = arr
			id := st.alloc(x.Type(), zp)
			set(x, VSlice{Obj: id, Off: Int(0), Len: n, Cap: c})
		}
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		set(x, VMap{Obj: st.alloc(x.Type(), emptyMap(mt))})
	case *ssa.MakeChan:
		set(x, VOpaque{Name: "chan", T: x.Type()})
	case *ssa.MakeInterface:
		set(x, VIface{T: x.X.Type(), V: ex.eval(fr, b, x.X)})
	case *ssa.MakeClosure:
		var bind []Val
		for _, y := range x.Bindings {
			bind = append(bind, ex.eval(fr, b, y))
		}
		set(x, VFunc{Fn: x.Fn.(*ssa.Function), Bind: bind})
	case *ssa.ChangeType:
		set(x, ex.eval(fr, b, x.X))
	case *ssa.ChangeInterface:
		set(x, ex.eval(fr, b, x.X))
	case *ssa.Convert:
		set(x, ex.convert(st, x.X.Type(), x.Type(), ex.eval(fr, b, x.X)))
	case *ssa.Extract:
		t, ok := ex.eval(fr, b, x.Tuple).(VTuple)
		if !ok {
			panic(Unsup("extract from %T", ex.eval(fr, b, x.Tuple)))
		}
		set(x, t[x.Index])
	case *ssa.Lookup:
		return ex.lookup(fr, b, x)
	case *ssa.MapUpdate:
		m := ex.eval(fr, b, x.Map).(VMap)
		if m.Obj == 0 {
			ex.safe(st, "nil-map", in, False)
			return []*BState{}
		}
		ex.guardAccess(st, x.Map, VPtr{Obj: m.Obj}, true, in)
		return ex.mapUpdate(b, m, under(x.Map.Type()).(*types.Map), ex.eval(fr, b, x.Key), ex.eval(fr, b, x.Value), false)
	case *ssa.Range:
		set(x, ex.mkRange(st, x, ex.eval(fr, b, x.X)))
	case *ssa.Next:
		return ex.next(fr, b, x)
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, b, x)
	case *ssa.SliceToArrayPointer:
		s := ex.eval(fr, b, x.X).(VSlice)
		n := under(x.Type().(*types.Pointer).Elem()).(*types.Array).Len()
		if !ex.safe(st, "slice-to-array", in, Sle(Int(n), s.Len)) {
			return []*BState{}
		}
		off, ok := constIdx(s.Off)
		if !ok || off != 0 {
			panic(Unsup("slice to array pointer at offset"))
		}
		set(x, VPtr{Obj: s.Obj, Path: s.Path})
	case *ssa.Go:
		panic(Unsup("go statement"))
	case *ssa.Send, *ssa.Select:
		panic(Unsup("channel operation"))
	default:
		panic(Unsup("instruction %T", in))
	}
	return nil
}

func selOf(t *Term) Sel {
	if k, ok := constIdx(t); ok {
		return Sel{I: k}
	}
	return Sel{T: t}
}

func (ex *Exec) toInt64(t types.Type, v *Term) *Term {
	if v.S.W == 64 {
		return v
	}
	if isSigned(t) {
		return Sext(v, 64)
	}
	return Zext(v, 64)
}

func (ex *Exec) load(st *State, p VPtr) Val {
	v := ex.loadRaw(st, p)
	if rb, ok := v.(VRopeBuf); ok {
		_ = rb
		panic(Unsup("loading rope buffer as value"))
	}
	return v
}

func (ex *Exec) store(st *State, p VPtr, v Val) {
	ex.storeRaw(st, p, v)
}

func emptyMap(mt *types.Map) *VMapC {
	ks, ok := keySort(mt)
	vs, ok2 := encSorts(mt.Elem())
	c := &VMapC{KT: mt.Key(), VT: mt.Elem(), Card: Int(0)}
	if ok && ok2 && !ptrInside(mt.Elem()) {
		good := true
		for _, v := range vs {
			if v.K == SArr {
				good = false
			}
		}
		if good {
			c.KSort = ks
			c.Has = ConstArr(ArrSort(ks, BoolSort), False)
			for _, v := range vs {
				c.Vals = append(c.Vals, ConstArr(ArrSort(ks, v), zeroTerm(v)))
			}
		}
	}
	return c
}

// ptrInside: maps holding pointers keep pointer identity in list mode.
func ptrInside(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

func (ex *Exec) mapContent(st *State, m VMap, mt *types.Map) *VMapC {
	if m.Obj == 0 {
		return emptyMap(mt)
	}
	return st.obj(m.Obj).V.(*VMapC)
}

func (ex *Exec) lookup(fr *Frame, b *BState, x *ssa.Lookup) []*BState {
	st := b.st
	set := func(bb *BState, v Val, ok *Term) {
		if x.CommaOk {
			bb.env[fr.info.idx[x]] = VTuple{v, ok}
		} else {
			bb.env[fr.info.idx[x]] = v
		}
	}
	v := ex.eval(fr, b, x.X)
	if s, ok := v.(VStr); ok {
		idx := ex.toInt64(x.Index.Type(), ex.eval(fr, b, x.Index).(*Term))
		r := ex.normRope(st, s)
		if !ex.safe(st, "index", x, Ult(idx, r.length())) {
			return []*BState{}
		}
		b.env[fr.info.idx[x]] = ropeByte(r, idx)
		return nil
	}
	m := v.(VMap)
	mt := under(x.X.Type()).(*types.Map)
	key := ex.eval(fr, b, x.Index)
	mobj := m.Obj
	if m.Obj != 0 {
		ex.guardAccess(st, x.X, VPtr{Obj: m.Obj}, false, x)
	}
	c := ex.mapContent(st, m, mt)
	if c.Has != nil {
		k := ex.encKey(st, mt, key)
		has := Select(c.Has, k)
		var enc []*Term
		for _, va := range c.Vals {
			enc = append(enc, Select(va, k))
		}
		// presence decides the value: absent keys read as zero
		vs, _ := encSorts(mt.Elem())
		mustFork := !isPlain(mt.Elem()) && has != True && has != False
		if mustFork {
			t, f := ex.fork(st, has)
			var res []*BState
			if t != nil {
				bt := b
				if f != nil {
					bt = b.fork(t)
				}
				bt.st = t
				dv, _ := ex.decode(t, mt.Elem(), enc, "mapval", true)
				set(bt, dv, True)
				res = append(res, bt)
			}
			if f != nil {
				b.st = f
				set(b, zeroVal(mt.Elem()), False)
				res = append(res, b)
			}
			return res
		}
		if has == False {
			set(b, zeroVal(mt.Elem()), False)
			return nil
		}
		if has != True {
			for i := range enc {
				enc[i] = Ite(has, enc[i], zeroTerm(vs[i]))
			}
		}
		dv, _ := ex.decode(st, mt.Elem(), enc, "mapval", true)
		set(b, dv, has)
		return nil
	}
	// list mode
	var res []*BState
	cur := b
	for i := len(c.L) - 1; i >= 0; i-- {
		u := c.L[i]
		e := ex.eqVals(cur.st, mt.Key(), u.K, key)
		t, f := ex.fork(cur.st, e)
		if t != nil {
			bt := cur
			if f != nil {
				bt = cur.fork(t)
			}
			bt.st = t
			if u.Del {
				set(bt, zeroVal(mt.Elem()), False)
			} else if u.Opt != nil {
				here, gone := ex.fork(t, u.Opt)
				if gone != nil {
					bg := bt
					if here != nil {
						bg = bt.fork(gone)
					}
					bg.st = gone
					set(bg, zeroVal(mt.Elem()), False)
					res = append(res, bg)
				}
				if here == nil {
					bt = nil
				} else {
					bt.st = here
					set(bt, u.V, True)
				}
			} else {
				set(bt, u.V, True)
			}
			if bt != nil {
				res = append(res, bt)
			}
		}
		if f == nil {
			cur = nil
			break
		}
		cur.st = f
	}
	if c.Rest != nil {
		for _, u := range c.Known {
			if cur == nil {
				break
			}
			t, f := ex.fork(cur.st, ex.eqVals(cur.st, mt.Key(), u.K, key))
			if t != nil {
				bt := cur
				if f != nil {
					bt = cur.fork(t)
				}
				bt.st = t
				if u.Del {
					set(bt, zeroVal(mt.Elem()), False)
				} else {
					set(bt, u.V, True)
				}
				res = append(res, bt)
			}
			if f == nil {
				cur = nil
				break
			}
			cur.st = f
		}
	}
	if cur != nil && c.Rest != nil {
		if t, f := ex.fork(cur.st, Fresh("other.present", BoolSort)); t != nil && f != nil {
			know := func(s *State, u MapUpd) {
				o := *s.heap[mobj]
				nc := *o.V.(*VMapC)
				nc.Known = append(nc.Known[:len(nc.Known):len(nc.Known)], u)
				o.V = &nc
				s.heap[mobj] = &o
			}
			bt := cur.fork(t)
			bt.st = t
			know(t, MapUpd{K: key, V: c.Rest})
			set(bt, c.Rest, True)
			res = append(res, bt)
			know(f, MapUpd{K: key, Del: true})
			cur.st = f
		}
	}
	if cur != nil {
		set(cur, zeroVal(mt.Elem()), False)
		res = append(res, cur)
	}
	return res
}

// isPlain: values whose zero needs no nil-ness distinction from the encoding.
func isPlain(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return true
	case *types.Array:
		return isPlain(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !isPlain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Slice:
		return false
	}
	return false
}

func (ex *Exec) mapUpdate(b *BState, m VMap, mt *types.Map, key, val Val, del bool) []*BState {
	st := b.st
	c := st.obj(m.Obj).V.(*VMapC)
	if st.wlog != nil {
		st.wlog[sprintf("%d|", m.Obj)] = &wentry{m.Obj, nil}
	}
	if c.Has != nil {
		k := ex.encKey(st, mt, key)
		n := *c
		had := Select(c.Has, k)
		if del {
			n.Has = Store(c.Has, k, False)
			if c.Card != nil {
				n.Card = Ite(had, Sub(c.Card, Int(1)), c.Card)
			}
		} else {
			enc := ex.encode(st, mt.Elem(), val)
			n.Has = Store(c.Has, k, True)
			n.Vals = make([]*Term, len(c.Vals))
			for i := range n.Vals {
				n.Vals[i] = Store(c.Vals[i], k, enc[i])
			}
			if c.Card != nil {
				n.Card = Ite(had, c.Card, Add(c.Card, Int(1)))
			}
		}
		st.setObj(m.Obj, &n)
		return nil
	}
	if st.wlog != nil && !del {
		if ex.mapWritten == nil {
			ex.mapWritten = map[int]bool{}
		}
		ex.mapWritten[m.Obj] = true
	}
	n := *c
	n.L = append(c.L[:len(c.L):len(c.L)], MapUpd{K: key, V: val, Del: del})
	st.setObj(m.Obj, &n)
	return nil
}

func (ex *Exec) sliceOp(fr *Frame, b *BState, x *ssa.Slice) []*BState {
	st := b.st
	v := ex.eval(fr, b, x.X)
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return ex.toInt64(s.Type(), ex.eval(fr, b, s).(*Term))
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = Int(0)
	}
	set := func(r Val) { b.env[fr.info.idx[x]] = r }
	switch s := v.(type) {
	case VStr:
		r := ex.normRope(st, s)
		n := r.length()
		if hi == nil {
			hi = n
		}
		if !ex.safe(st, "slice", x, And(Ule(lo, hi), Ule(hi, n))) {
			return []*BState{}
		}
		set(ex.normRope(st, ropeSub(r, lo, hi)))
	case VSlice:
		if hi == nil {
			hi = s.Len
		}
		cp := s.Cap
		if max != nil {
			if !ex.safe(st, "slice", x, And(Ule(hi, max), Ule(max, cp))) {
				return []*BState{}
			}
			cp = max
		}
		if !ex.safe(st, "slice", x, And(Ule(lo, hi), Ule(hi, cp))) {
			return []*BState{}
		}
		set(VSlice{Obj: s.Obj, Path: s.Path, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(cp, lo)})
	case VPtr:
		if s.Obj == 0 {
			ex.safe(st, "nil-deref", x, False)
			return []*BState{}
		}
		n := Int(under(x.X.Type().(*types.Pointer).Elem()).(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			cp = max
		}
		if !ex.safe(st, "slice", x, And(Ule(lo, hi), Ule(hi, cp), Ule(cp, n))) {
			return []*BState{}
		}
		set(VSlice{Obj: s.Obj, Path: s.Path, Off: lo, Len: Sub(hi, lo), Cap: Sub(cp, lo)})
	default:
		panic(Unsup("slice of %T", v))
	}
	return nil
}

func (ex *Exec) convert(st *State, from, to types.Type, v Val) Val {
	fu, tu := under(from), under(to)
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			if s, ok := v.(VSlice); ok {
				return ex.sliceRope(st, s)
			}
			if s, ok := v.(VStr); ok {
				return s
			}
			if t, ok := v.(*Term); ok && t.IsConst() {
				k, _ := t.Int64()
				return ropeConst(string(rune(k)))
			}
			panic(Unsup("convert to string from %T", v))
		}
		if w := intWidth(tb); w > 0 {
			t, ok := v.(*Term)
			if !ok {
				panic(Unsup("convert %s to %s", from, to))
			}
			if t.S.K != SBV {
				return App("f2i", BV(w), t)
			}
			if isSigned(from) {
				return Sext(t, w)
			}
			return Zext(t, w)
		}
		if tb.Info()&types.IsFloat != 0 {
			t := v.(*Term)
			if t.S.K == SBV {
				return App(sprintf("i2f%d", t.S.W), USort("Float"), t)
			}
			return t
		}
		if tb.Kind() == types.UnsafePointer {
			panic(Unsup("unsafe.Pointer"))
		}
	}
	if _, ok := tu.(*types.Slice); ok {
		if s, ok := v.(VStr); ok && isByteSlice(to) {
			r := ex.bytesFromRope(st, ex.normRope(st, s), "conv")
			st.heap[r.Obj].CapUnk = true
			return r
		}
		if _, ok := v.(VSlice); ok {
			return v
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return v
		}
	}
	panic(Unsup("convert %s to %s", from, to))
}

func (ex *Exec) binop(fr *Frame, b *BState, x *ssa.BinOp) Val {
	st := b.st
	l, r := ex.eval(fr, b, x.X), ex.eval(fr, b, x.Y)
	switch x.Op {
	case token.EQL:
		return ex.eqVals(st, x.X.Type(), l, r)
	case token.NEQ:
		return Not(ex.eqVals(st, x.X.Type(), l, r))
	}
	if ls, ok := l.(VStr); ok {
		rs := r.(VStr)
		switch x.Op {
		case token.ADD:
			return ropeCat(ls, rs)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if x.Op == token.GTR || x.Op == token.LEQ {
				ls, rs = rs, ls
			}
			c := strLess(ls, rs)
			if x.Op == token.LEQ || x.Op == token.GEQ {
				return Not(c)
			}
			return c
		}
		panic(Unsup("string op %s", x.Op))
	}
	lt, ok1 := l.(*Term)
	rt, ok2 := r.(*Term)
	if !ok1 || !ok2 {
		panic(Unsup("binop %s on %T", x.Op, l))
	}
	if lt.S.K == SU {
		// floats: uninterpreted
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return App("fcmp$"+sanitize(x.Op.String()), BoolSort, lt, rt)
		}
		return App("fop$"+x.Op.String(), lt.S, lt, rt)
	}
	sg := isSigned(x.X.Type())
	switch x.Op {
	case token.ADD:
		return Add(lt, rt)
	case token.SUB:
		return Sub(lt, rt)
	case token.MUL:
		return Mul(lt, rt)
	case token.QUO, token.REM:
		if !ex.safe(st, "div", x, Not(Eq(rt, BVI(0, rt.S.W)))) {
			return nil
		}
		if sg {
			half := BVI(0, 1)
			_ = half
			if x.Op == token.QUO {
				if nonNeg(st, lt) && nonNeg(st, rt) {
					return UDiv(lt, rt)
				}
				return SDiv(lt, rt)
			}
			if nonNeg(st, lt) && nonNeg(st, rt) {
				return URem(lt, rt)
			}
			return SRem(lt, rt)
		}
		if x.Op == token.QUO {
			return UDiv(lt, rt)
		}
		return URem(lt, rt)
	case token.AND:
		return BAnd(lt, rt)
	case token.OR:
		return BOr(lt, rt)
	case token.XOR:
		return BXor(lt, rt)
	case token.AND_NOT:
		return BAnd(lt, BNot(rt))
	case token.SHL, token.SHR:
		w := lt.S.W
		if isSigned(x.Y.Type()) {
			if !ex.safe(st, "shift", x, Sle(BVI(0, rt.S.W), rt)) {
				return nil
			}
		}
		// widen / clamp the shift count
		var sh *Term
		if rt.S.W <= w {
			sh = Zext(rt, w)
		} else {
			sh = Ite(Ult(rt, BVI(int64(w), rt.S.W)), Extract(rt, w-1, 0), BVI(int64(w), w))
			if w == 8 {
				sh = Ite(Ult(rt, BVI(int64(w), rt.S.W)), Extract(rt, 7, 0), BVI(8, 8))
			}
		}
		if x.Op == token.SHL {
			return Shl(lt, sh)
		}
		if sg {
			return Ashr(lt, sh)
		}
		return Lshr(lt, sh)
	case token.LSS:
		if sg {
			return Slt(lt, rt)
		}
		return Ult(lt, rt)
	case token.LEQ:
		if sg {
			return Sle(lt, rt)
		}
		return Ule(lt, rt)
	case token.GTR:
		if sg {
			return Slt(rt, lt)
		}
		return Ult(rt, lt)
	case token.GEQ:
		if sg {
			return Sle(rt, lt)
		}
		return Ule(rt, lt)
	}
	panic(Unsup("binop %s", x.Op))
}

func nonNeg(st *State, t *Term) bool {
	return t.S.W > 0 && maxU(t).Bit(t.S.W-1) == 0
}

func strLess(a, b VStr) *Term {
	return App("strless", BoolSort, a.term(), b.term())
}

// eqVals: Go == on values of static type t.
func (ex *Exec) eqVals(st *State, t types.Type, l, r Val) *Term {
	switch a := l.(type) {
	case *Term:
		return Eq(a, r.(*Term))
	case VStr:
		return eqRope(ex.normRope(st, a), ex.normRope(st, r.(VStr)))
	case VPtr:
		b, ok := r.(VPtr)
		if !ok {
			panic(Unsup("pointer compared with %T", r))
		}
		if a.Obj == 0 || b.Obj == 0 {
			return BoolT(a.Obj == b.Obj)
		}
		if a.Obj != b.Obj {
			return False
		}
		return BoolT(pathKey(a.Path) == pathKey(b.Path))
	case VSlice:
		b := r.(VSlice)
		if b.Obj == 0 {
			return BoolT(a.Obj == 0)
		}
		if a.Obj == 0 {
			return BoolT(b.Obj == 0)
		}
	case VMap:
		b := r.(VMap)
		return BoolT(a.Obj == b.Obj)
	case VFunc:
		b := r.(VFunc)
		an := a.Fn == nil && a.Opq == ""
		bn := b.Fn == nil && b.Opq == ""
		if an || bn {
			return BoolT(an == bn)
		}
	case *VStruct:
		b := r.(*VStruct)
		u := under(t).(*types.Struct)
		var cs []*Term
		for i := range a.F {
			cs = append(cs, ex.eqVals(st, u.Field(i).Type(), a.F[i], b.F[i]))
		}
		return And(cs...)
	case *VArr:
		b := r.(*VArr)
		u := under(t).(*types.Array)
		if isByte(u.Elem()) && len(a.E) > 0 {
			return Eq(ex.encode(st, t, a)[0], ex.encode(st, t, b)[0])
		}
		var cs []*Term
		for i := range a.E {
			cs = append(cs, ex.eqVals(st, u.Elem(), a.E[i], b.E[i]))
		}
		return And(cs...)
	case VIface:
		b, ok := r.(VIface)
		if !ok {
			// comparison of interface with concrete value
			panic(Unsup("interface compared with %T", r))
		}
		if a.Opq != nil || b.Opq != nil {
			return Eq(ex.errID(st, a), ex.errID(st, b))
		}
		if a.T == nil || b.T == nil {
			return BoolT(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return False
		}
		return ex.eqVals(st, a.T, a.V, b.V)
	case VOpaque:
		if b, ok := r.(VOpaque); ok {
			return BoolT(a.Name == b.Name)
		}
		return False
	}
	panic(Unsup("comparing %T with %T", l, r))
}

func (ex *Exec) typeAssert(fr *Frame, b *BState, x *ssa.TypeAssert) []*BState {
	i := ex.eval(fr, b, x.X).(VIface)
	set := func(v Val) { b.env[fr.info.idx[x]] = v }
	if i.Opq != nil {
		if _, ok := under(x.AssertedType).(*types.Interface); ok && isErrorType(x.AssertedType) {
			set(i)
			return nil
		}
		panic(Unsup("type assertion on opaque interface"))
	}
	ok := false
	var v Val
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		ok = i.T != nil && types.Implements(i.T, it)
		v = i
		if !ok {
			v = VIface{}
		}
	} else {
		ok = i.T != nil && types.Identical(i.T, x.AssertedType)
		v = i.V
	}
	if x.CommaOk {
		if !ok {
			v = zeroVal(x.AssertedType)
		}
		set(VTuple{v, BoolT(ok)})
		return nil
	}
	if !ok {
		ex.safe(b.st, "type-assert", x, False)
		return []*BState{}
	}
	set(v)
	return nil
}

// ---- range over maps and strings

type VRange struct {
	Map  VMap
	MT   *types.Map
	Str  VStr
	Keys []int // remaining list-mode entries
	Pos  int
	Cell int // object holding iteration state
	Name string
}

type rangeState struct {
	done map[int]bool
	n    int
	seen *Term // encoded mode: Array K Bool
}

func (ex *Exec) mkRange(st *State, x *ssa.Range, v Val) Val {
	switch c := v.(type) {
	case VMap:
		mt := under(x.X.Type()).(*types.Map)
		ex.guardAccess(st, x.X, VPtr{Obj: c.Obj}, false, x)
		mc := ex.mapContent(st, c, mt)
		rs := rangeState{done: map[int]bool{}}
		if mc.Has != nil {
			rs.seen = ConstArr(ArrSort(mc.KSort, BoolSort), False)
		}
		id := st.alloc(nil, rs)
		return VRange{Map: c, MT: mt, Cell: id}
	case VStr:
		panic(Unsup("range over string"))
	}
	panic(Unsup("range over %T", v))
}

// next: iteration over a map picks an arbitrary present, unvisited key.
func (ex *Exec) next(fr *Frame, b *BState, x *ssa.Next) []*BState {
	r := ex.eval(fr, b, x.Iter).(VRange)
	st := b.st
	rs := st.obj(r.Cell).V.(rangeState)
	if r.Map.Obj != 0 {
		ex.guardAccess(st, nil, VPtr{Obj: r.Map.Obj}, false, x)
	}
	mc := ex.mapContent(st, r.Map, r.MT)
	set := func(bb *BState, ok *Term, k, v Val) {
		bb.env[fr.info.idx[x]] = VTuple{ok, k, v}
	}
	zk, zv := zeroVal(r.MT.Key()), zeroVal(r.MT.Elem())
	if mc.Has == nil {
		// list mode: later updates shadow earlier ones; keys assumed pairwise comparable
		var live []int
		for i := range mc.L {
			if rs.done[i] {
				continue
			}
			shadow := False
			for j := i + 1; j < len(mc.L); j++ {
				shadow = Or(shadow, ex.eqVals(st, r.MT.Key(), mc.L[i].K, mc.L[j].K))
			}
			if shadow == True || mc.L[i].Del {
				continue
			}
			if shadow != False {
				panic(Unsup("range over map with undetermined aliases"))
			}
			live = append(live, i)
		}
		if len(live) == 0 {
			set(b, False, zk, zv)
			return nil
		}
		var res []*BState
		for n, i := range live {
			bb := b
			if n < len(live)-1 {
				bb = b.fork(st.clone())
			}
			nd := map[int]bool{i: true}
			for k := range rs.done {
				nd[k] = true
			}
			bb.st.setObj(r.Cell, rangeState{done: nd})
			set(bb, True, mc.L[i].K, mc.L[i].V)
			res = append(res, bb)
		}
		return res
	}
	// encoded mode
	if mc.Card != nil {
		if k, ok := constIdx(mc.Card); ok && k == rs.n {
			set(b, False, zk, zv)
			return nil
		}
	}
	more := Fresh("more", BoolSort)
	key := Fresh("rkey", mc.KSort)
	st2 := st.clone()
	b2 := b.fork(st2)
	// finished: every present key has been visited
	bv := Bound(sprintf("rk%d", key.id), mc.KSort)
	st2.assume(Not(more))
	st2.assume(Forall(bv, Implies(Select(mc.Has, bv), Select(rs.seen, bv)), Select(mc.Has, bv)))
	set(b2, False, zk, zv)
	st.assume(more)
	st.assume(Select(mc.Has, key))
	st.assume(Not(Select(rs.seen, key)))
	st.setObj(r.Cell, rangeState{seen: Store(rs.seen, key, True), n: rs.n + 1})
	if st.wlog != nil {
		st.wlog[sprintf("%d|", r.Cell)] = &wentry{r.Cell, nil}
	}
	kv, _ := ex.decode(st, r.MT.Key(), splitKey(r.MT, key), "rangekey", true)
	var enc []*Term
	for _, va := range mc.Vals {
		enc = append(enc, Select(va, key))
	}
	vv, _ := ex.decode(st, r.MT.Elem(), enc, "rangeval", true)
	set(b, True, kv, vv)
	var res []*BState
	if ex.feasible(b2.st, True) {
		res = append(res, b2)
	}
	if ex.feasible(b.st, True) {
		res = append(res, b)
	}
	return res
}

// ---- call plumbing

func (ex *Exec) callArgs(fr *Frame, b *BState, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	fv := ex.eval(fr, b, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.eval(fr, b, a))
	}
	return fv, args
}

func (ex *Exec) doCall(fr *Frame, b *BState, c *ssa.CallCommon, fv Val, args []Val, in ssa.Instruction) []*Outcome {
	st := b.st
	if c.IsInvoke() {
		i, ok := fv.(VIface)
		if !ok {
			panic(Unsup("invoke on %T", fv))
		}
		if i.Opq != nil {
			if c.Method.Name() == "Error" {
				return []*Outcome{{st, []Val{VStr{[]Seg{{A: App("errtext", StrSort, i.Opq)}}}}}}
			}
			panic(Unsup("method call on opaque interface"))
		}
		if i.T == nil {
			ex.safe(st, "nil-iface-call", in, False)
			return nil
		}
		if o, ok := i.V.(VOpaque); ok {
			return ex.opaqueInvoke(st, o, c, args)
		}
		if c.Method.Name() == "Error" && isErrStringPtr(i.T) {
			if es, ok := ex.loadRaw(st, i.V.(VPtr)).(*VStruct); ok {
				return ret1(st, es.F[0])
			}
			return ret1(st, VStr{[]Seg{{A: App("errtext", StrSort, ex.errID(st, i))}}})
		}
		fn := ex.prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(Unsup("method %s of %s", c.Method.Name(), i.T))
		}
		return ex.call(st, fn, append([]Val{i.V}, args...), nil, in)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, bi.Name(), c, args, in)
	}
	f, ok := fv.(VFunc)
	if !ok {
		panic(Unsup("call of %T", fv))
	}
	if f.Fn == nil {
		if f.Opq == "" {
			ex.safe(st, "nil-func-call", in, False)
			return nil
		}
		return ex.opaqueCall(st, f, c.Signature(), args)
	}
	return ex.call(st, f.Fn, args, f.Bind, in)
}

func (ex *Exec) call(st *State, fn *ssa.Function, args, bind []Val, in ssa.Instruction) []*Outcome {
	name := fn.String()
	if debugTrace {
		println(strings.Repeat(" ", ex.depth) + "call " + name)
	}
	if isIntrinsic(fn) {
		return ex.intrinsic(st, fn, args, in)
	}
	if ex.cur != nil && ex.cur.Fn.Pkg != nil {
		if sf := ex.stubs[ex.cur.Fn.Pkg.Pkg.Path()][name]; sf != nil && ex.cur.Target != fn {
			// further parameters are the contract's parameters of the same name
			for _, p := range sf.Params[min(len(args), len(sf.Params)):] {
				g, ok := ex.ghostArgs[p.Name()]
				if !ok {
					panic(Unsup("no parameter %s for %s", p.Name(), sf.Name()))
				}
				args = append(args[:len(args):len(args)], g)
			}
			ex.trusted["assume: "+name+" behaves as "+sf.Name()+" in the contract files says"] = true
			return ex.callFn(st, sf, args, nil)
		}
	}
	if m, ok := models[name]; ok {
		ex.trusted[name] = true
		return m(ex, st, fn, args, in)
	}
	if c, ok := ex.contracts[fn]; ok && !(ex.cur != nil && ex.cur.Target == fn && !st.pivoted && len(ex.useStack) == 0) && !(ex.inUse() == c && !st.pivoted) && ex.useContract(c) {
		return ex.applyContract(st, c, args, in)
	}
	if u := ex.inUse(); u != nil && u.Target == fn && !st.pivoted {
		return ex.havocCall(st, u)
	}
	if c := ex.cur; c != nil && len(ex.useStack) == 0 && c.Target == fn && !st.pivoted {
		st.pivoted = true
		st.takeSnap()
		if !ex.muteVC {
			ex.vcs = append(ex.vcs, &VC{Contract: c.Name, Label: "cover:pre", PC: st.pc, Goal: True, Cover: true})
		}
		return ex.callFn(st, fn, args, bind)
	}
	if l, ok := ex.byName[lemKey(fn)]; ok && l.Lemma {
		return ex.applyContract(st, l, args, in)
	}
	if ex.isRecSpec(fn) {
		return ex.recSpec(st, fn, args)
	}
	if ex.isSpecFn(fn) {
		if o := ex.specCall(st, fn, args); o != nil {
			return o
		}
	}
	return ex.callFn(st, fn, args, bind)
}

func lemKey(fn *ssa.Function) string {
	return fn.RelString(nil)
}

// isSpecFn: a specification function of the contract files with plain results.
func (ex *Exec) isSpecFn(fn *ssa.Function) bool {
	if r, ok := ex.specFns[fn]; ok {
		return r
	}
	r := fn.Signature.Recv() == nil && (strings.HasPrefix(fn.Name(), "spec") || strings.HasPrefix(fn.Name(), "Spec")) &&
		ex.contractFiles[ex.prog.Fset.Position(fn.Pos()).Filename]
	if r {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			switch u := under(fn.Signature.Results().At(i).Type()).(type) {
			case *types.Basic:
			case *types.Array:
				if !isByte(u.Elem()) {
					if a, ok := under(u.Elem()).(*types.Array); !ok || !isByte(a.Elem()) {
						r = false
					}
				}
			default:
				r = false
			}
		}
	}
	ex.specFns[fn] = r
	return r
}

// specCall evaluates a specification function without forking the state.
func (ex *Exec) specCall(st *State, fn *ssa.Function, args []Val) []*Outcome {
	if ex.specPlain[fn] == 0 {
		ex.specPlain[fn] = 1
		for _, p := range fn.Params {
			switch u := under(p.Type()).(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					ex.specPlain[fn] = 2
				}
			case *types.Array:
				if !isByte(u.Elem()) {
					if a, ok := under(u.Elem()).(*types.Array); !ok || !isByte(a.Elem()) {
						ex.specPlain[fn] = 2
					}
				}
			default:
				ex.specPlain[fn] = 2
			}
		}
	}
	if ex.specPlain[fn] == 1 {
		var enc []*Term
		for i, p := range fn.Params {
			enc = append(enc, ex.encode(st, p.Type(), args[i])...)
		}
		key := fmt.Sprintf("%s|%d", fn.String(), termsKey(enc))
		defs, ok := ex.specMemo[key]
		if !ok {
			defs = ex.unfoldBody(fn, enc)
			ex.specMemo[key] = defs
		}
		if defs == nil {
			return nil
		}
		var ret []Val
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			var v Val
			v, defs = ex.decode(st, res.At(i).Type(), defs, "spec", true)
			ret = append(ret, v)
		}
		return []*Outcome{{st, ret}}
	}
	s := st.clone()
	s.wlog = nil
	base := len(s.pc)
	ex.pure++
	om, cuts := ex.muteVC, ex.cuts
	ex.muteVC, ex.cuts = true, nil
	defer func() { ex.pure--; ex.muteVC = om; ex.cuts = cuts }()
	outs := ex.callFn(s, fn, args, nil)
	if len(outs) == 0 {
		return nil
	}
	if len(outs) == 1 && len(restPC(st.pc[:base], outs[0].St.pc)) > 0 {
		return nil
	}
	res := fn.Signature.Results()
	encOut := func(o *Outcome) []*Term {
		var r []*Term
		for i := 0; i < res.Len(); i++ {
			r = append(r, ex.encode(o.St, res.At(i).Type(), o.Ret[i])...)
		}
		return r
	}
	defs := encOut(outs[len(outs)-1])
	for i := len(outs) - 2; i >= 0; i-- {
		e := encOut(outs[i])
		c := And(restPC(st.pc[:base], outs[i].St.pc)...)
		for k := range defs {
			defs[k] = Ite(c, e[k], defs[k])
		}
	}
	var ret []Val
	for i := 0; i < res.Len(); i++ {
		var v Val
		v, defs = ex.decode(st, res.At(i).Type(), defs, "spec", true)
		ret = append(ret, v)
	}
	return []*Outcome{{st, ret}}
}
