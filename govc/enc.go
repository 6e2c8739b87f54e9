package main

import (
	"go/types"
	"strings"
)

func (ex *Exec) encode(st *State, t types.Type, v Val) []*Term {
	if isBigInt(t) {
		b := v.(VBig)
		if b.Neg != nil && b.Neg != False {
			panic(Unsup("encoding possibly negative big.Int"))
		}
		if b.T.S.W > bigW {
			panic(Unsup("encoding wide big.Int"))
		}
		return []*Term{Zext(b.T, bigW)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if s, ok := v.(VStr); ok {
			return []*Term{ex.normRope(st, s).term()}
		}
		return []*Term{v.(*Term)}
	case *types.Array:
		a, ok := v.(*VArr)
		if !ok {
			panic(Unsup("encode array content %T", v))
		}
		if isByte(u.Elem()) && u.Len() > 0 {
			bs := make([]*Term, len(a.E))
			for i := range bs {
				bs[i] = a.E[i].(*Term)
			}
			return []*Term{leConcat(bs)}
		}
		var out []*Term
		for _, e := range a.E {
			out = append(out, ex.encode(st, u.Elem(), e)...)
		}
		return out
	case *types.Slice:
		s := v.(VSlice)
		if isByte(u.Elem()) {
			return []*Term{ex.sliceRope(st, s).term()}
		}
		es, ok := encSorts(u.Elem())
		if !ok {
			panic(Unsup("encode slice of %s", u.Elem()))
		}
		if s.Obj == 0 {
			var out []*Term
			for _, e := range es {
				out = append(out, ConstArr(ArrSort(BV(64), e), zeroTerm(e)))
			}
			return append(out, Int(0))
		}
		content := ex.readPath(st, st.obj(s.Obj).V, s.Path, nil)
		switch c := content.(type) {
		case VSymArr:
			if !isZero(s.Off) {
				panic(Unsup("encode offset symbolic slice"))
			}
			return append(append([]*Term{}, c.Arr...), s.Len)
		case *VArr:
			off, ok1 := constIdx(s.Off)
			if !ok1 {
				panic(Unsup("encode slice with symbolic offset"))
			}
			out := make([]*Term, len(es))
			for i, e := range es {
				out[i] = ConstArr(ArrSort(BV(64), e), zeroTerm(e))
			}
			n := len(c.E) - off
			if k, ok := constIdx(s.Len); ok {
				n = k
			}
			for k := 0; k < n; k++ {
				enc := ex.encode(st, u.Elem(), c.E[off+k])
				for i := range out {
					out[i] = Store(out[i], Int(int64(k)), enc[i])
				}
			}
			return append(out, s.Len)
		}
		panic(Unsup("encode slice content %T", content))
	case *types.Struct:
		if strings.HasPrefix(typeKey(t), "sync.") {
			return nil
		}
		var out []*Term
		sv, ok := v.(*VStruct)
		if !ok {
			panic(Unsup("encode struct %T", v))
		}
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.encode(st, u.Field(i).Type(), sv.F[i])...)
		}
		return out
	case *types.Pointer:
		p, ok := v.(VPtr)
		if !ok {
			panic(Unsup("encode pointer %T", v))
		}
		if isBigInt(u.Elem()) {
			if p.Obj == 0 {
				return []*Term{BVI(0, bigW)}
			}
			return ex.encode(st, u.Elem(), ex.loadRaw(st, p))
		}
		if _, ok := under(u.Elem()).(*types.Array); ok {
			if p.Obj == 0 {
				panic(Unsup("encode nil pointer to array"))
			}
			return ex.encode(st, u.Elem(), ex.loadRaw(st, p))
		}
		if p.Obj == 0 {
			es, _ := encSorts(u.Elem())
			out := []*Term{True}
			for _, e := range es {
				out = append(out, zeroTerm(e))
			}
			return out
		}
		return append([]*Term{False}, ex.encode(st, u.Elem(), ex.loadRaw(st, p))...)
	case *types.Interface:
		return []*Term{ex.errID(st, v.(VIface))}
	case *types.Map:
		m := v.(VMap)
		c := ex.mapContent(st, m, u)
		if c.Has == nil {
			panic(Unsup("encode list-mode map"))
		}
		return append([]*Term{c.Has}, c.Vals...)
	}
	panic(Unsup("encode %s", t))
}

// errID: identity term of an error value; nil is 0.
func (ex *Exec) errID(st *State, i VIface) *Term {
	if i.Opq != nil {
		return i.Opq
	}
	if i.T == nil {
		return BVI(0, 32)
	}
	if p, ok := i.V.(VPtr); ok {
		return BVI(int64(p.Obj), 32)
	}
	return ex.freshErr("errv")
}

func (ex *Exec) freshErr(name string) *Term {
	objCnt++
	return BVI(int64(objCnt), 32)
}

// decode builds a value of type t from its encoding, allocating objects as needed.
func (ex *Exec) decode(st *State, t types.Type, enc []*Term, name string, ro bool) (Val, []*Term) {
	if isBigInt(t) {
		return VBig{T: enc[0]}, enc[1:]
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if enc[0].S == StrSort {
			return ropeOfTerm(enc[0]), enc[1:]
		}
		return enc[0], enc[1:]
	case *types.Array:
		n := int(u.Len())
		e := make([]Val, n)
		if isByte(u.Elem()) && n > 0 {
			for i, b := range leBytes(enc[0]) {
				e[i] = b
			}
			return &VArr{e}, enc[1:]
		}
		for i := range e {
			e[i], enc = ex.decode(st, u.Elem(), enc, name, ro)
		}
		return &VArr{e}, enc
	case *types.Slice:
		if isByte(u.Elem()) {
			return ex.bytesFromRope(st, ropeOfTerm(enc[0]), name), enc[1:]
		}
		es, _ := encSorts(u.Elem())
		arr := enc[:len(es)]
		ln := enc[len(es)]
		id := st.alloc(t, VSymArr{Arr: append([]*Term{}, arr...), Elem: u.Elem(), Len: ln})
		st.heap[id].RO = ro
		return VSlice{Obj: id, Off: Int(0), Len: ln, Cap: ln}, enc[len(es)+1:]
	case *types.Struct:
		if strings.HasPrefix(typeKey(t), "sync.") {
			return zeroVal(t), enc
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i], enc = ex.decode(st, u.Field(i).Type(), enc, name, ro)
		}
		return &VStruct{f}, enc
	case *types.Pointer:
		if !isBigInt(u.Elem()) {
			if _, ok := under(u.Elem()).(*types.Array); !ok {
				flag := enc[0]
				if flag == True {
					es, _ := encSorts(u.Elem())
					return VPtr{}, enc[1+len(es):]
				}
				if flag != False {
					if st.has(flag) {
						es, _ := encSorts(u.Elem())
						return VPtr{}, enc[1+len(es):]
					}
					if !st.has(Not(flag)) {
						panic(Unsup("pointer of undetermined nilness (%s)", name))
					}
				}
				enc = enc[1:]
			}
		}
		v, rest := ex.decode(st, u.Elem(), enc, name, ro)
		id := st.alloc(u.Elem(), v)
		st.heap[id].RO = ro
		return VPtr{Obj: id}, rest
	case *types.Interface:
		return ex.errFromID(st, enc[0]), enc[1:]
	case *types.Map:
		n := 1
		vs, _ := encSorts(u.Elem())
		n += len(vs)
		ks, _ := keySort(u)
		id := st.alloc(t, &VMapC{KT: u.Key(), VT: u.Elem(), Has: enc[0], Vals: append([]*Term{}, enc[1:n]...), KSort: ks})
		return VMap{Obj: id}, enc[n:]
	}
	panic(Unsup("decode %s", t))
}

func (ex *Exec) errFromID(st *State, id *Term) VIface {
	if id.Op == OConst {
		v, _ := id.Int64()
		if v == 0 {
			return VIface{}
		}
		if o := globalHeap[int(v)]; o != nil {
			return VIface{T: types.NewPointer(o.T), V: VPtr{Obj: int(v)}}
		}
		if o := st.heap[int(v)]; o != nil {
			return VIface{T: types.NewPointer(o.T), V: VPtr{Obj: int(v)}}
		}
	}
	return VIface{Opq: id}
}

// nilForks gives, for each nilable pointer made since the last call, the states with and without it.
func (ex *Exec) nilForks(outs []*Outcome) []*Outcome {
	sites := ex.nilSites
	ex.nilSites = nil
	for _, id := range sites {
		var nx []*Outcome
		for _, o := range outs {
			s2 := o.St.clone()
			for k, h := range s2.heap {
				if v, ch := dropPtr(h.V, id); ch {
					c := *h
					c.V = v
					s2.heap[k] = &c
				}
			}
			r2 := make([]Val, len(o.Ret))
			for i, r := range o.Ret {
				r2[i], _ = dropPtr(r, id)
			}
			nx = append(nx, o, &Outcome{s2, r2})
		}
		outs = nx
	}
	return outs
}

func dropPtr(v Val, id int) (Val, bool) {
	switch x := v.(type) {
	case VPtr:
		if x.Obj == id {
			return VPtr{}, true
		}
	case *VStruct:
		for i, f := range x.F {
			if n, ch := dropPtr(f, id); ch {
				c := &VStruct{append([]Val{}, x.F...)}
				c.F[i] = n
				return c, true
			}
		}
	case *VArr:
		for i, f := range x.E {
			if n, ch := dropPtr(f, id); ch {
				c := &VArr{append([]Val{}, x.E...)}
				c.E[i] = n
				return c, true
			}
		}
	}
	return v, false
}

// freshField: fields of other modules' types that cannot be represented are
// left out; any use of one stops the analysis of the function.
func (ex *Exec) freshField(st *State, owner, t types.Type, name string) (v Val) {
	n, ok := owner.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return ex.fresh(st, t, name)
	}
	if ex.foreign >= 3 {
		return VPoison{name}
	}
	ex.foreign++
	of := ex.freshIn
	defer func() {
		ex.foreign--
		ex.freshIn = of
		if r := recover(); r != nil {
			if _, ok := r.(UnsupErr); !ok {
				panic(r)
			}
			v = VPoison{name}
		}
	}()
	return ex.fresh(st, t, name)
}

// fresh makes an arbitrary value of type t. Pointers are non-nil and unaliased.
func (ex *Exec) fresh(st *State, t types.Type, name string) Val {
	if isBigInt(t) {
		return VBig{T: Fresh(name, BV(bigW))}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if strings.HasPrefix(typeKey(t), "sync.") {
			return zeroVal(t)
		}
		f := make([]Val, u.NumFields())
		of := ex.freshIn
		if n, ok := t.(*types.Named); ok {
			ex.freshIn = n
		}
		defer func() { ex.freshIn = of }()
		for i := range f {
			f[i] = ex.freshField(st, t, u.Field(i).Type(), name+"."+u.Field(i).Name())
			if ex.memo[typeKey(t)+"."+u.Field(i).Name()] {
				f[i] = zeroVal(u.Field(i).Type())
				continue
			}
			if p, ok := f[i].(VPtr); ok && ex.nilable[typeKey(t)+"."+u.Field(i).Name()] {
				ex.nilSites = append(ex.nilSites, p.Obj)
			}
		}
		return &VStruct{f}
	case *types.Array:
		if !isByte(u.Elem()) {
			e := make([]Val, int(u.Len()))
			for i := range e {
				e[i] = ex.fresh(st, u.Elem(), name)
			}
			return &VArr{e}
		}
	case *types.Pointer:
		if isBigInt(u.Elem()) {
			id := st.alloc(u.Elem(), VBig{T: Fresh(name, BV(bigW))})
			st.heap[id].Input = name
			return VPtr{Obj: id}
		}
		v := ex.fresh(st, u.Elem(), name)
		id := st.alloc(u.Elem(), v)
		st.heap[id].Input = name
		return VPtr{Obj: id}
	case *types.Interface:
		if isErrorType(t) {
			return VIface{Opq: Fresh(name, BV(32))}
		}
		return ex.absImpl(st, t, name)
	case *types.Map:
		es, ok := encSorts(t)
		if !ok {
			panic(Unsup("arbitrary map %s", t))
		}
		ks, _ := keySort(u)
		c := &VMapC{KT: u.Key(), VT: u.Elem(), KSort: ks, Has: Fresh(name+".has", es[0])}
		for _, s := range es[1:] {
			c.Vals = append(c.Vals, Fresh(name+".val", s))
		}
		id := st.alloc(t, c)
		st.heap[id].Input = name
		return VMap{Obj: id}
	case *types.Slice:
		if isByte(u.Elem()) {
			s := Fresh(name, StrSort)
			v := ex.bytesFromRope(st, VStr{[]Seg{{A: s}}}, name)
			st.heap[v.Obj].Input = name
			if ex.spareCap {
				v.Cap = Add(v.Len, Zext(Fresh(name+".spare", BV(8)), 64))
			}
			return v
		}
		es, ok := encSorts(u.Elem())
		if !ok {
			panic(Unsup("fresh slice of %s", u.Elem()))
		}
		var arr []*Term
		for _, e := range es {
			arr = append(arr, Fresh(name+".arr", ArrSort(BV(64), e)))
		}
		// elements are not nil, as pointers given are not
		for i, nn := range ex.nonNilFlags(u.Elem()) {
			if nn {
				arr[i] = ConstArr(arr[i].S, False)
			}
		}
		ln := Fresh(name+".len", BV(64))
		st.assume(Ult(ln, BVI(1<<32, 64)))
		id := st.alloc(t, VSymArr{Arr: arr, Elem: u.Elem(), Len: ln})
		st.heap[id].Input = name
		return VSlice{Obj: id, Off: Int(0), Len: ln, Cap: ln}
	case *types.Signature:
		return VFunc{Opq: name}
	case *types.Chan:
		return VOpaque{Name: name, T: t}
	}
	es, ok := encSorts(t)
	if !ok {
		panic(Unsup("fresh %s", t))
	}
	var enc []*Term
	for _, s := range es {
		enc = append(enc, Fresh(name, s))
	}
	v, _ := ex.decode(st, t, enc, name, false)
	return v
}

func (ex *Exec) bytesFromRope(st *State, r VStr, name string) VSlice {
	n := r.length()
	id := st.alloc(types.NewSlice(byteType), ropeContent(r))
	return VSlice{Obj: id, Off: Int(0), Len: n, Cap: n}
}

func ropeContent(r VStr) Val {
	if _, ok := r.constLen(); ok {
		bs := r.bytes()
		e := make([]Val, len(bs))
		for i := range e {
			e[i] = bs[i]
		}
		return &VArr{e}
	}
	return VRopeBuf{r}
}

// normRope replaces atoms whose length is fixed by the path condition with their bytes.
func (ex *Exec) normRope(st *State, r VStr) VStr {
	var segs []Seg
	for _, s := range r.Segs {
		if s.A != nil {
			if n, ok := ex.knownLen(st, s.A); ok && n <= 1024 {
				if n > 0 {
					segs = appendSeg(segs, Seg{B: leBytes(fixTerm(s.A, n))})
				}
				continue
			}
		}
		segs = appendSeg(segs, s)
	}
	return VStr{segs}
}

// fixTerm: the bytes (LE) of a string atom known to have length n.
func fixTerm(a *Term, n int) *Term {
	if a.Op == OApp && a.Name == "sub" {
		var bs []*Term
		for i := 0; i < n; i++ {
			bs = append(bs, strByte(a, Int(int64(i))))
		}
		return leConcat(bs)
	}
	return App(sprintf("fix$%d", n), BV(8*n), a)
}

func (ex *Exec) knownLen(st *State, a *Term) (int, bool) {
	l := strLen(a)
	if k, ok := constIdx(l); ok {
		return k, k >= 0
	}
	base, c := splitAdd(l)
	for _, p := range st.pc {
		if p.Op != OEq {
			continue
		}
		x, y := p.Args[0], p.Args[1]
		if y.Op == OConst {
			x, y = y, x
		}
		if x.Op == OConst && y.S.K == SBV {
			if y == l {
				k, _ := x.Int64()
				return int(k), true
			}
			by, cy := splitAdd(y)
			if by == base && base != nil {
				v := bigAddSub(x.Val, c, cy)
				t := BVC(v, 64)
				k, ok := t.Int64()
				return int(k), ok && k >= 0
			}
		}
	}
	return 0, false
}

// sliceRope returns the bytes of a []byte slice as a rope.
func (ex *Exec) sliceRope(st *State, s VSlice) VStr {
	if s.Obj == 0 {
		return VStr{}
	}
	if isZero(s.Len) {
		return VStr{}
	}
	c := ex.readPath(st, st.obj(s.Obj).V, s.Path, nil)
	switch x := c.(type) {
	case *VArr:
		off, ok := constIdx(s.Off)
		n, ok2 := constIdx(s.Len)
		if ok && ok2 {
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = x.E[off+i].(*Term)
			}
			return ropeBytes(bs)
		}
		bs := make([]*Term, len(x.E))
		for i := range bs {
			bs[i] = x.E[i].(*Term)
		}
		return ex.normRope(st, ropeSub(ropeBytes(bs), s.Off, Add(s.Off, s.Len)))
	case VRopeBuf:
		return ex.normRope(st, ropeSub(ex.normRope(st, x.S), s.Off, Add(s.Off, s.Len)))
	case VSymArr:
		if n, ok := constIdx(s.Len); ok && n <= 512 {
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = Select(x.Arr[0], Add(s.Off, Int(int64(i))))
			}
			return ropeBytes(bs)
		}
		return VStr{[]Seg{{A: App("strof", StrSort, x.Arr[0], s.Off, s.Len)}}}
	case VMinBytes:
		if !isZero(s.Off) {
			panic(Unsup("subslice of big.Int bytes"))
		}
		nm := "minbe"
		if x.LE {
			nm = "minle"
		}
		if x.T.Op == OConst {
			b := x.T.Val.Bytes()
			bs := make([]*Term, len(b))
			for i := range b {
				j := i
				if x.LE {
					j = len(b) - 1 - i
				}
				bs[i] = BVI(int64(b[j]), 8)
			}
			return ropeBytes(bs)
		}
		return VStr{[]Seg{{A: App(nm, StrSort, Zext(x.T, bigW))}}}
	}
	panic(Unsup("bytes of %T", c))
}

// nonNilFlags marks the nil flags in the encoding of t that are false for a value given from
// outside: those of pointers that are not declared nilable.
func (ex *Exec) nonNilFlags(t types.Type) []bool {
	es, ok := encSorts(t)
	if !ok {
		return nil
	}
	out := make([]bool, len(es))
	switch u := under(t).(type) {
	case *types.Struct:
		if isBigInt(t) || strings.HasPrefix(typeKey(t), "sync.") {
			return out
		}
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			fs, _ := encSorts(u.Field(i).Type())
			f := ex.nonNilFlags(u.Field(i).Type())
			if ex.nilable[typeKey(t)+"."+u.Field(i).Name()] {
				f = make([]bool, len(fs))
			}
			copy(out[k:], f)
			k += len(fs)
		}
	case *types.Pointer:
		if isBigInt(u.Elem()) || len(es) == 0 {
			return out
		}
		if _, ok := under(u.Elem()).(*types.Array); ok {
			return out
		}
		out[0] = es[0] == BoolSort
		copy(out[1:], ex.nonNilFlags(u.Elem()))
	}
	return out
}
