package main

import (
	"fmt"
	"go/types"
)

type State struct {
	pc        []*Term
	heap      map[int]*Obj
	derived   map[string]int
	locks     map[string]int // lock key -> -1 write held, n>0 read held
	pivotRet  []Val
	pivoted   bool
	mods      map[int]bool // objects the contract under verification may modify
	trace     []string
	ghost     map[string]Val
	guards    []guard
	snap      map[int]*Obj
	snapLocks int
	lockUse   bool
	// dry-run write log (shared pointer when active)
	wlog map[string]*wentry
}

type wentry struct {
	obj  int
	path []Sel
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, derived: map[string]int{}, locks: map[string]int{}, mods: map[int]bool{}, ghost: map[string]Val{}}
}

func (s *State) clone() *State {
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.derived = make(map[string]int, len(s.derived))
	for k, v := range s.derived {
		n.derived[k] = v
	}
	n.locks = make(map[string]int, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.mods = make(map[int]bool, len(s.mods))
	for k, v := range s.mods {
		n.mods[k] = v
	}
	n.guards = s.guards
	n.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return &n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == t {
			return
		}
	}
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], t)
}

func (s *State) has(t *Term) bool {
	if t == True {
		return true
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			if !s.has(a) {
				return false
			}
		}
		return true
	}
	for _, p := range s.pc {
		if p == t {
			return true
		}
		if t.Op == OOr {
			for _, a := range t.Args {
				if p == a {
					return true
				}
			}
		}
	}
	return false
}

var objCnt int

func (s *State) alloc(t types.Type, v Val) int {
	objCnt++
	s.heap[objCnt] = &Obj{ID: objCnt, T: t, V: v}
	return objCnt
}

func (s *State) obj(id int) *Obj {
	o := s.heap[id]
	if o == nil {
		o = globalHeap[id]
	}
	if o == nil {
		panic(Unsup("no object %d", id))
	}
	return o
}

// setObj replaces an object's content.
func (s *State) setObj(id int, v Val) {
	o := *s.obj(id)
	o.V = v
	s.heap[id] = &o
}

var globalHeap = map[int]*Obj{}

func pathKey(p []Sel) string {
	r := ""
	for _, s := range p {
		if s.T != nil {
			r += fmt.Sprintf(".t%d", s.T.id)
		} else {
			r += fmt.Sprintf(".%d", s.I)
		}
	}
	return r
}

func extPath(p []Sel, s Sel) []Sel {
	return append(p[:len(p):len(p)], s)
}

// ---- reading and writing inside contents

func arrElems(v Val) []Val {
	a, ok := v.(*VArr)
	if !ok {
		panic(Unsup("array content %T", v))
	}
	return a.E
}

func constIdx(t *Term) (int, bool) {
	if t.Op == OConst {
		if c, ok := t.Int64(); ok {
			return int(c), true
		}
	}
	return 0, false
}

func (ex *Exec) readPath(st *State, v Val, path []Sel, elemT types.Type) Val {
	for i, s := range path {
		switch c := v.(type) {
		case *VStruct:
			v = c.F[s.I]
		case *VArr:
			if s.T != nil {
				if k, ok := constIdx(s.T); ok {
					if k < 0 || k >= len(c.E) {
						panic(Unsup("const index out of range"))
					}
					v = c.E[k]
					continue
				}
				return ex.readSym(st, c.E, s.T, path[i+1:])
			}
			if s.I >= len(c.E) {
				panic(Unsup("index out of range"))
			}
			v = c.E[s.I]
		case VRopeBuf:
			idx := s.T
			if idx == nil {
				idx = Int(int64(s.I))
			}
			v = ropeByte(ex.normRope(st, c.S), idx)
		case VSymArr:
			idx := s.T
			if idx == nil {
				idx = Int(int64(s.I))
			}
			v = ex.symElem(st, c, idx)
		case VMinBytes:
			panic(Unsup("indexing minimal big-int bytes"))
		default:
			panic(Unsup("read path in %T", v))
		}
	}
	return v
}

func (ex *Exec) symElem(st *State, c VSymArr, idx *Term) Val {
	var enc []*Term
	for _, a := range c.Arr {
		enc = append(enc, Select(a, idx))
	}
	key := fmt.Sprintf("sym%d", termsKey(enc))
	if hasPtr(c.Elem) {
		if id, ok := st.derived[key]; ok {
			v, _ := ex.decodeAt(st, c.Elem, enc, id)
			return v
		}
	}
	v, _ := ex.decode(st, c.Elem, enc, "elem", true)
	if p, ok := v.(VPtr); ok {
		st.derived[key] = p.Obj
	}
	return v
}

func termsKey(ts []*Term) int {
	// hash-consed tuple id through an App term
	return App("tuple", USort("Tuple"), ts...).id
}

func hasPtr(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

func (ex *Exec) decodeAt(st *State, t types.Type, enc []*Term, id int) (Val, []*Term) {
	return VPtr{Obj: id}, nil
}

func (ex *Exec) readSym(st *State, es []Val, idx *Term, rest []Sel) Val {
	vals := make([]Val, len(es))
	allT := true
	for i, e := range es {
		vals[i] = ex.readPath(st, e, rest, nil)
		if _, ok := vals[i].(*Term); !ok {
			allT = false
		}
	}
	if len(vals) == 0 {
		panic(Unsup("symbolic index into empty array"))
	}
	if allT {
		ts := make([]*Term, len(vals))
		for i, v := range vals {
			ts[i] = v.(*Term)
		}
		if ts[0].S.K == SBV {
			return selectBytes(ts, idx)
		}
		r := ts[len(ts)-1]
		for k := len(ts) - 2; k >= 0; k-- {
			r = Ite(Eq(idx, Int(int64(k))), ts[k], r)
		}
		return r
	}
	r := vals[len(vals)-1]
	for k := len(vals) - 2; k >= 0; k-- {
		m, ok := mergeVal(Eq(idx, Int(int64(k))), vals[k], r)
		if !ok {
			panic(Unsup("symbolic index into unmergeable array"))
		}
		r = m
	}
	return r
}

func (ex *Exec) writePath(st *State, v Val, path []Sel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	switch c := v.(type) {
	case *VStruct:
		f := append([]Val{}, c.F...)
		f[s.I] = ex.writePath(st, f[s.I], path[1:], nv)
		return &VStruct{f}
	case *VArr:
		e := append([]Val{}, c.E...)
		if s.T != nil {
			if k, ok := constIdx(s.T); ok {
				e[k] = ex.writePath(st, e[k], path[1:], nv)
				return &VArr{e}
			}
			for k := range e {
				w := ex.writePath(st, e[k], path[1:], nv)
				m, ok := mergeVal(Eq(s.T, Int(int64(k))), w, e[k])
				if !ok {
					panic(Unsup("symbolic store of unmergeable value"))
				}
				e[k] = m
			}
			return &VArr{e}
		}
		e[s.I] = ex.writePath(st, e[s.I], path[1:], nv)
		return &VArr{e}
	case VRopeBuf:
		idx := s.T
		if idx == nil {
			idx = Int(int64(s.I))
		}
		if k, ok := constIdx(idx); ok {
			pos := 0
			segs := append([]Seg{}, c.S.Segs...)
			for i, sg := range segs {
				if sg.A != nil {
					break
				}
				if k < pos+len(sg.B) {
					b := append([]*Term{}, sg.B...)
					b[k-pos] = nv.(*Term)
					segs[i] = Seg{B: b}
					return VRopeBuf{VStr{segs}}
				}
				pos += len(sg.B)
			}
		}
		sa := ropeToSym(c.S)
		return ex.writePath(st, sa, path, nv)
	case VSymArr:
		idx := s.T
		if idx == nil {
			idx = Int(int64(s.I))
		}
		var enc []*Term
		if len(path) > 1 {
			cur := ex.symElem(st, c, idx)
			nv = ex.writePath(st, cur, path[1:], nv)
		}
		enc = ex.encode(st, c.Elem, nv)
		na := make([]*Term, len(c.Arr))
		for i := range na {
			na[i] = Store(c.Arr[i], idx, enc[i])
		}
		return VSymArr{Arr: na, Elem: c.Elem, Len: c.Len}
	}
	panic(Unsup("write path in %T", v))
}

var byteType types.Type = types.Typ[types.Uint8]

func ropeToSym(s VStr) VSymArr {
	var arr *Term
	arr = App("bytesof", ArrSort(BV(64), BV(8)), s.term())
	if bs := s.bytes(); bs != nil || len(s.Segs) == 0 {
		arr = ConstArr(ArrSort(BV(64), BV(8)), BVI(0, 8))
		for i, b := range bs {
			arr = Store(arr, Int(int64(i)), b)
		}
	}
	return VSymArr{Arr: []*Term{arr}, Elem: byteType, Len: s.length()}
}

// ---- merging

func mergeVal(c *Term, a, b Val) (Val, bool) {
	if c == True {
		return a, true
	}
	if c == False {
		return b, true
	}
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.S != y.S {
			return nil, false
		}
		return Ite(c, x, y), true
	case *VArr:
		y, ok := b.(*VArr)
		if !ok || len(x.E) != len(y.E) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		e := make([]Val, len(x.E))
		for i := range e {
			e[i], ok = mergeVal(c, x.E[i], y.E[i])
			if !ok {
				return nil, false
			}
		}
		return &VArr{e}, true
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		e := make([]Val, len(x.F))
		for i := range e {
			e[i], ok = mergeVal(c, x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
		}
		return &VStruct{e}, true
	case VPtr:
		y, ok := b.(VPtr)
		if !ok || x.Obj != y.Obj || pathKey(x.Path) != pathKey(y.Path) {
			return nil, false
		}
		return x, true
	case VSlice:
		y, ok := b.(VSlice)
		if !ok || x.Obj != y.Obj || pathKey(x.Path) != pathKey(y.Path) {
			return nil, false
		}
		return VSlice{Obj: x.Obj, Path: x.Path, Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Cap: Ite(c, x.Cap, y.Cap)}, true
	case VStr:
		y, ok := b.(VStr)
		if !ok {
			return nil, false
		}
		tx, ty := x.term(), y.term()
		if tx == ty {
			return x, true
		}
		if bx, by := x.bytes(), y.bytes(); len(bx) == len(by) && bx != nil {
			n := make([]*Term, len(bx))
			for i := range n {
				n[i] = Ite(c, bx[i], by[i])
			}
			return ropeBytes(n), true
		}
		if len(x.Segs) != 1 || len(y.Segs) != 1 || x.Segs[0].A == nil || y.Segs[0].A == nil {
			return nil, false // keep texts of different shapes on separate paths
		}
		return VStr{[]Seg{{A: Ite(c, tx, ty)}}}, true
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return nil, false
		}
		if x.Opq != nil && y.Opq != nil {
			return VIface{Opq: Ite(c, x.Opq, y.Opq)}, true
		}
		if x.T == nil && y.T == nil && x.Opq == nil && y.Opq == nil {
			return x, true
		}
		if x.T == nil || y.T == nil || !types.Identical(x.T, y.T) {
			return nil, false
		}
		v, ok := mergeVal(c, x.V, y.V)
		if !ok {
			return nil, false
		}
		return VIface{T: x.T, V: v}, true
	case VMap:
		y, ok := b.(VMap)
		return x, ok && x.Obj == y.Obj
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) || x.Opq != y.Opq {
			return nil, false
		}
		nb := make([]Val, len(x.Bind))
		for i := range nb {
			nb[i], ok = mergeVal(c, x.Bind[i], y.Bind[i])
			if !ok {
				return nil, false
			}
		}
		return VFunc{Fn: x.Fn, Bind: nb, Opq: x.Opq}, true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		e := make(VTuple, len(x))
		for i := range e {
			e[i], ok = mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
		}
		return e, true
	case VBig:
		y, ok := b.(VBig)
		if !ok {
			return nil, false
		}
		tx, ty := eqWidth(x.T, y.T)
		r := VBig{T: Ite(c, tx, ty)}
		if x.Neg != nil || y.Neg != nil {
			r.Neg = Ite(c, x.neg(), y.neg())
		}
		return r, true
	case VRopeBuf:
		y, ok := b.(VRopeBuf)
		if !ok {
			return nil, false
		}
		m, ok := mergeVal(c, x.S, y.S)
		if !ok {
			return nil, false
		}
		return VRopeBuf{m.(VStr)}, true
	case VSymArr:
		y, ok := b.(VSymArr)
		if !ok {
			return nil, false
		}
		n := make([]*Term, len(x.Arr))
		for i := range n {
			n[i] = Ite(c, x.Arr[i], y.Arr[i])
		}
		return VSymArr{Arr: n, Elem: x.Elem, Len: Ite(c, x.Len, y.Len)}, true
	case VMinBytes:
		y, ok := b.(VMinBytes)
		if !ok || x.LE != y.LE {
			return nil, false
		}
		tx, ty := eqWidth(x.T, y.T)
		return VMinBytes{T: Ite(c, tx, ty), LE: x.LE}, true
	case *VMapC:
		y, ok := b.(*VMapC)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.Has == nil || y.Has == nil {
			return nil, false
		}
		n := *x
		n.Has = Ite(c, x.Has, y.Has)
		n.Vals = make([]*Term, len(x.Vals))
		for i := range n.Vals {
			n.Vals[i] = Ite(c, x.Vals[i], y.Vals[i])
		}
		if x.Card != nil && y.Card != nil {
			n.Card = Ite(c, x.Card, y.Card)
		}
		return &n, true
	case VOpaque:
		y, ok := b.(VOpaque)
		return x, ok && x.Name == y.Name
	}
	return nil, false
}

func (b VBig) neg() *Term {
	if b.Neg == nil {
		return False
	}
	return b.Neg
}

func eqWidth(a, b *Term) (*Term, *Term) {
	if a.S.W < b.S.W {
		return Zext(a, b.S.W), b
	}
	return a, Zext(b, a.S.W)
}

// mergeStates merges b into a (branches of a common ancestor); ok=false if not mergeable.
func mergeStates(a, b *State) (*State, *Term, bool) {
	if len(a.trace) != len(b.trace) || len(a.locks) != len(b.locks) || a.pivoted != b.pivoted {
		return nil, nil, false
	}
	for k, v := range a.locks {
		if b.locks[k] != v {
			return nil, nil, false
		}
	}
	for i := range a.trace {
		if a.trace[i] != b.trace[i] {
			return nil, nil, false
		}
	}
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	ra, rb := a.pc[n:], b.pc[n:]
	var c *Term
	if len(ra) > 0 && len(rb) > 0 && ra[0] == Not(rb[0]) {
		c = ra[0]
	} else {
		c = And(ra...)
		if c == True {
			return nil, nil, false
		}
		// require exclusivity through a complementary literal
		excl := false
		for _, x := range ra {
			for _, y := range rb {
				if x == Not(y) {
					c = x
					excl = true
				}
			}
		}
		if !excl {
			return nil, nil, false
		}
	}
	r := a.clone()
	for id, oa := range a.heap {
		ob := b.heap[id]
		if ob == nil {
			if g := globalHeap[id]; g != nil {
				ob = g
			} else {
				continue
			}
		}
		if oa == ob {
			continue
		}
		if oa.Apnd != ob.Apnd || oa.CapUnk != ob.CapUnk {
			return nil, nil, false
		}
		v, ok := mergeVal(c, oa.V, ob.V)
		if !ok {
			return nil, nil, false
		}
		o := *oa
		o.V = v
		r.heap[id] = &o
	}
	for id, ob := range b.heap {
		if _, ok := a.heap[id]; ok {
			continue
		}
		if g := globalHeap[id]; g != nil {
			v, ok := mergeVal(c, g.V, ob.V)
			if !ok {
				return nil, nil, false
			}
			o := *ob
			o.V = v
			r.heap[id] = &o
			continue
		}
		r.heap[id] = ob
	}
	for k, v := range b.derived {
		if _, ok := r.derived[k]; !ok {
			r.derived[k] = v
		}
	}
	for k, v := range a.ghost {
		w, ok := b.ghost[k]
		if !ok && k == "clock" {
			delete(r.ghost, k)
			continue
		}
		if !ok {
			return nil, nil, false
		}
		m, ok := mergeVal(c, v, w)
		if !ok {
			return nil, nil, false
		}
		r.ghost[k] = m
	}
	if len(a.pivotRet) != len(b.pivotRet) {
		return nil, nil, false
	}
	if len(a.pivotRet) > 0 {
		pr := make([]Val, len(a.pivotRet))
		for i := range pr {
			m, ok := mergeVal(c, a.pivotRet[i], b.pivotRet[i])
			if !ok {
				return nil, nil, false
			}
			pr[i] = m
		}
		r.pivotRet = pr
	}
	for k := range b.mods {
		r.mods[k] = true
	}
	r.pc = a.pc[:n:n]
	var xs, ys []*Term
	for _, t := range ra {
		if t != c {
			xs = append(xs, Implies(c, t))
		}
	}
	for _, t := range rb {
		if t != Not(c) {
			ys = append(ys, Implies(Not(c), t))
		}
	}
	for _, t := range append(xs, ys...) {
		r.assume(t)
	}
	return r, c, true
}
