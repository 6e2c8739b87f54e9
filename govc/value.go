package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VArr struct{ E []Val }
type VStruct struct{ F []Val }

type Sel struct {
	I int
	T *Term // symbolic index when non-nil
}

type VPtr struct {
	Obj  int // 0 = nil
	Path []Sel
}

type VSlice struct {
	Obj  int // 0 = nil slice
	Path []Sel
	Off  *Term
	Len  *Term
	Cap  *Term
}

type Seg struct {
	B []*Term // bytes, or
	A *Term   // Str atom
}

// VStr is an immutable byte string (Go string or snapshot of bytes).
type VStr struct{ Segs []Seg }

type VIface struct {
	T   types.Type
	V   Val
	Opq *Term // opaque error identity (BV32) when T == nil and Opq != nil
}

type VMap struct{ Obj int }
type VFunc struct {
	Fn   *ssa.Function
	Bind []Val
	Opq  string // opaque function identity
}
type VTuple []Val

// VBig is the value of a big.Int (non-negative unless Neg).
type VBig struct {
	T   *Term
	Neg *Term // nil = false
}

// VMinBytes: content of the []byte returned by big.Int.Bytes (minimal length).
type VMinBytes struct {
	T  *Term
	LE bool
}

// VSymArr is backing storage of symbolic extent: Array BV64 -> elem encoding.
type VSymArr struct {
	Arr  []*Term // one per encoding component of Elem
	Elem types.Type
	Len  *Term // extent
}

// VRopeBuf is byte backing storage given by a rope.
type VRopeBuf struct{ S VStr }

// VMapC is the content of a map: encoded when Has != nil, otherwise list mode.
type VMapC struct {
	KT, VT types.Type
	Has    *Term
	Vals   []*Term
	KSort  *Sort
	// list mode
	L    []MapUpd
	Rest  Val // what any key that is not listed may be mapped to
	Known []MapUpd // what was found for keys not listed
	Card *Term
}
type MapUpd struct {
	K   Val
	V   Val
	Del bool
	Opt *Term // present only if this holds
}

type VOpaque struct {
	Name string
	T    types.Type
}

type Obj struct {
	ID     int
	T      types.Type // type of content
	V      Val
	Input  string // non-empty: pre-existing object, name
	RO     bool   // derived read-only
	CapUnk bool
	Apnd   bool
	Global bool
}

// ---------------------------------------------------------------- ropes

func rope(segs ...Seg) VStr {
	var out []Seg
	for _, s := range segs {
		if s.A != nil {
			for _, x := range ropeOfTerm(s.A).Segs {
				out = appendSeg(out, x)
			}
			continue
		}
		out = appendSeg(out, s)
	}
	return VStr{out}
}

func appendSeg(out []Seg, s Seg) []Seg {
	if s.A == nil {
		if len(s.B) == 0 {
			return out
		}
		if n := len(out); n > 0 && out[n-1].A == nil {
			nb := append(append([]*Term{}, out[n-1].B...), s.B...)
			out = append(append([]Seg{}, out[:n-1]...), Seg{B: nb})
			return out
		}
	}
	return append(out, s)
}

func ropeConst(s string) VStr {
	var bs []*Term
	for i := 0; i < len(s); i++ {
		bs = append(bs, BVI(int64(s[i]), 8))
	}
	return rope(Seg{B: bs})
}
func ropeBytes(bs []*Term) VStr { return rope(Seg{B: bs}) }

func ropeCat(a ...VStr) VStr {
	var segs []Seg
	for _, x := range a {
		for _, s := range x.Segs {
			segs = appendSeg(segs, s)
		}
	}
	return VStr{segs}
}

func (r VStr) constLen() (int, bool) {
	n := 0
	for _, s := range r.Segs {
		if s.A != nil {
			return 0, false
		}
		n += len(s.B)
	}
	return n, true
}

func (r VStr) bytes() []*Term {
	if len(r.Segs) == 0 {
		return nil
	}
	if len(r.Segs) == 1 && r.Segs[0].A == nil {
		return r.Segs[0].B
	}
	return nil
}

func (r VStr) constStr() (string, bool) {
	var sb strings.Builder
	for _, s := range r.Segs {
		if s.A != nil {
			return "", false
		}
		for _, b := range s.B {
			if b.Op != OConst {
				return "", false
			}
			sb.WriteByte(byte(b.Val.Uint64()))
		}
	}
	return sb.String(), true
}

func strLen(t *Term) *Term {
	if t.Op == OIte {
		return Ite(t.Args[0], strLen(t.Args[1]), strLen(t.Args[2]))
	}
	if t.Op == OApp {
		if strings.HasPrefix(t.Name, "lit$") {
			if len(t.Args) == 0 {
				return Int(0)
			}
			return Int(int64(t.Args[0].S.W / 8))
		}
		if t.Name == "cat" {
			return Add(strLen(t.Args[0]), strLen(t.Args[1]))
		}
		if t.Name == "sub" {
			return Sub(t.Args[2], t.Args[1])
		}
		if t.Name == "hexenc" {
			return Mul(Int(2), strLen(t.Args[0]))
		}
	}
	return App("strlen", BV(64), t)
}

func (r VStr) length() *Term {
	n := Int(0)
	for _, s := range r.Segs {
		if s.A != nil {
			n = Add(n, strLen(s.A))
		} else {
			n = Add(n, Int(int64(len(s.B))))
		}
	}
	return n
}

func leConcat(bs []*Term) *Term {
	rev := make([]*Term, len(bs))
	for i, b := range bs {
		rev[len(bs)-1-i] = b
	}
	return Concat(rev...)
}

func leBytes(t *Term) []*Term {
	n := t.S.W / 8
	out := make([]*Term, n)
	for i := range out {
		out[i] = Extract(t, 8*i+7, 8*i)
	}
	return out
}

func litTerm(bs []*Term) *Term {
	if len(bs) == 0 {
		return App("lit$0", StrSort)
	}
	return App(fmt.Sprintf("lit$%d", len(bs)), StrSort, leConcat(bs))
}

func (r VStr) term() *Term {
	if len(r.Segs) == 0 {
		return litTerm(nil)
	}
	seg := func(s Seg) *Term {
		if s.A != nil {
			return s.A
		}
		return litTerm(s.B)
	}
	t := seg(r.Segs[len(r.Segs)-1])
	for i := len(r.Segs) - 2; i >= 0; i-- {
		t = App("cat", StrSort, seg(r.Segs[i]), t)
	}
	return t
}

func ropeOfTerm(t *Term) VStr {
	if t.Op == OApp {
		if strings.HasPrefix(t.Name, "lit$") {
			if len(t.Args) == 0 {
				return VStr{}
			}
			return VStr{[]Seg{{B: leBytes(t.Args[0])}}}
		}
		if t.Name == "cat" {
			return ropeCat(ropeOfTerm(t.Args[0]), ropeOfTerm(t.Args[1]))
		}
	}
	return VStr{[]Seg{{A: t}}}
}

func strByte(t *Term, i *Term) *Term {
	if t.Op == OApp && t.Name == "sub" {
		return strByte(t.Args[0], Add(t.Args[1], i))
	}
	if t.Op == OApp && t.Name == "strof" {
		return Select(t.Args[0], Add(t.Args[1], i))
	}
	if t.Op == OIte {
		return Ite(t.Args[0], ropeByte(ropeOfTerm(t.Args[1]), i), ropeByte(ropeOfTerm(t.Args[2]), i))
	}
	return Select(App("bytesof", ArrSort(BV(64), BV(8)), t), i)
}

// ropeByte returns the byte at index i (assumed in range).
func ropeByte(r VStr, i *Term) *Term {
	if len(r.Segs) == 0 {
		return BVI(0, 8)
	}
	pos := Int(0)
	rest := i
	for k, s := range r.Segs {
		n := Int(0)
		if s.A == nil {
			n = Int(int64(len(s.B)))
			if c, ok := rest.Int64(); ok && rest.Op == OConst {
				if c >= 0 && c < int64(len(s.B)) {
					return s.B[c]
				}
				rest = Sub(rest, n)
				continue
			}
			if k == len(r.Segs)-1 {
				return selectBytes(s.B, rest)
			}
		} else {
			if k == len(r.Segs)-1 {
				return strByte(s.A, rest)
			}
			n = strLen(s.A)
		}
		_ = pos
		// undecided segment: use ite on position
		var head *Term
		if s.A != nil {
			head = strByte(s.A, rest)
		} else {
			head = selectBytes(s.B, rest)
		}
		tail := ropeByte(VStr{r.Segs[k+1:]}, Sub(rest, n))
		return Ite(Ult(rest, n), head, tail)
	}
	return BVI(0, 8)
}

// selectBytes: byte at symbolic index of a list of bytes
func selectBytes(bs []*Term, i *Term) *Term {
	if c, ok := i.Int64(); ok && i.Op == OConst {
		if c < 0 || c >= int64(len(bs)) {
			return BVI(0, bs[0].S.W)
		}
		return bs[c]
	}
	if len(bs) == 0 {
		return BVI(0, 8)
	}
	ew := bs[0].S.W
	whole := leConcat(bs)
	if (whole.Op != OConcat && whole.S.W > ew) || len(bs) > 16 {
		w := whole.S.W
		if w < 64 {
			whole = Zext(whole, 64)
			w = 64
		}
		sh := Mul(Zext(i, w), BVI(int64(ew), w))
		return Extract(Lshr(whole, sh), ew-1, 0)
	}
	r := bs[len(bs)-1]
	for k := len(bs) - 2; k >= 0; k-- {
		r = Ite(Eq(i, Int(int64(k))), bs[k], r)
	}
	return r
}

// ropeSub: r[lo:hi] (bounds already checked)
func ropeSub(r VStr, lo, hi *Term) VStr {
	if lo == hi {
		return VStr{}
	}
	if isZero(lo) && hi == r.length() {
		return r
	}
	// drop leading segments
	segs := r.Segs
	for len(segs) > 0 {
		s := segs[0]
		n := VStr{[]Seg{s}}.length()
		if lo == n && !isZero(n) {
			segs = segs[1:]
			hi = Sub(hi, n)
			lo = Int(0)
			continue
		}
		if s.A == nil {
			if c, ok := lo.Int64(); ok && lo.Op == OConst && c >= 0 {
				if c >= int64(len(s.B)) {
					segs = segs[1:]
					lo, hi = Sub(lo, n), Sub(hi, n)
					continue
				} else if c > 0 {
					segs = append([]Seg{{B: s.B[c:]}}, segs[1:]...)
					lo, hi = Int(0), Sub(hi, lo)
				}
			} else if b, k := splitAdd(lo); b != nil && k.IsInt64() {
				// symbolic: maybe lo = n + x
				_ = b
			}
		} else if d := Sub(lo, n); d.Op == OConst && d.Val.BitLen() < 62 {
			segs = segs[1:]
			lo, hi = d, Sub(hi, n)
			continue
		}
		break
	}
	rr := VStr{segs}
	if isZero(lo) {
		// take prefix up to hi
		var out []Seg
		rem := hi
		ok := true
		for k, s := range segs {
			if isZero(rem) {
				break
			}
			n := VStr{[]Seg{s}}.length()
			if s.A == nil {
				if c, isC := rem.Int64(); isC && rem.Op == OConst {
					if c <= int64(len(s.B)) && c >= 0 {
						out = appendSeg(out, Seg{B: s.B[:c]})
						rem = Int(0)
						break
					}
				}
				out = appendSeg(out, s)
				rem = Sub(rem, n)
				continue
			}
			d := Sub(rem, n)
			if d.Op == OConst && d.Val.BitLen() < 62 {
				out = appendSeg(out, s)
				rem = d
				continue
			}
			{
				if k == len(segs)-1 {
					if c, isC := rem.Int64(); isC && rem.Op == OConst && c <= 256 {
						for i := int64(0); i < c; i++ {
							out = appendSeg(out, Seg{B: []*Term{strByte(s.A, Int(i))}})
						}
					} else {
						out = appendSeg(out, Seg{A: App("sub", StrSort, s.A, Int(0), rem)})
					}
					rem = Int(0)
					break
				}
			}
			ok = false
			break
		}
		if ok && isZero(rem) {
			return VStr{out}
		}
	}
	d := Sub(hi, lo)
	if c, ok := d.Int64(); ok && d.Op == OConst && c >= 0 && c <= 512 {
		var bs []*Term
		for i := int64(0); i < c; i++ {
			bs = append(bs, ropeByte(rr, Add(lo, Int(i))))
		}
		return ropeBytes(bs)
	}
	if len(rr.Segs) == 1 && rr.Segs[0].A != nil {
		a := rr.Segs[0].A
		if a.Op == OApp && a.Name == "sub" {
			return VStr{[]Seg{{A: App("sub", StrSort, a.Args[0], Add(a.Args[1], lo), Add(a.Args[1], hi))}}}
		}
		if a.Op == OApp && a.Name == "strof" {
			return VStr{[]Seg{{A: App("strof", StrSort, a.Args[0], Add(a.Args[1], lo), Sub(hi, lo))}}}
		}
	}
	return VStr{[]Seg{{A: App("sub", StrSort, rr.term(), lo, hi)}}}
}

// eqRope compares two ropes, structurally where possible.
func eqRope(a, b VStr) *Term {
	sa, sb := append([]Seg{}, a.Segs...), append([]Seg{}, b.Segs...)
	var cs []*Term
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[0], sb[0]
		if x.A != nil && y.A != nil {
			if x.A == y.A {
				sa, sb = sa[1:], sb[1:]
				continue
			}
			// equal known lengths
			break
		}
		if x.A == nil && y.A == nil {
			n := len(x.B)
			if len(y.B) < n {
				n = len(y.B)
			}
			e := Eq(leConcat(x.B[:n]), leConcat(y.B[:n]))
			if e == False {
				return False
			}
			cs = append(cs, e)
			if len(x.B) > n {
				sa[0] = Seg{B: x.B[n:]}
			} else {
				sa = sa[1:]
			}
			if len(y.B) > n {
				sb[0] = Seg{B: y.B[n:]}
			} else {
				sb = sb[1:]
			}
			continue
		}
		break
	}
	// common suffix
	for len(sa) > 0 && len(sb) > 0 {
		x, y := sa[len(sa)-1], sb[len(sb)-1]
		if x.A != nil && y.A != nil {
			if x.A == y.A {
				sa, sb = sa[:len(sa)-1], sb[:len(sb)-1]
				continue
			}
			break
		}
		if x.A == nil && y.A == nil {
			n := len(x.B)
			if len(y.B) < n {
				n = len(y.B)
			}
			e := Eq(leConcat(x.B[len(x.B)-n:]), leConcat(y.B[len(y.B)-n:]))
			if e == False {
				return False
			}
			cs = append(cs, e)
			if len(x.B) > n {
				sa[len(sa)-1] = Seg{B: x.B[:len(x.B)-n]}
			} else {
				sa = sa[:len(sa)-1]
			}
			if len(y.B) > n {
				sb[len(sb)-1] = Seg{B: y.B[:len(y.B)-n]}
			} else {
				sb = sb[:len(sb)-1]
			}
			continue
		}
		break
	}
	if len(sa) == 0 && len(sb) == 0 {
		return And(cs...)
	}
	if len(sa) == 0 || len(sb) == 0 {
		rest := sa
		if len(sa) == 0 {
			rest = sb
		}
		// remaining must be empty
		for _, s := range rest {
			if s.A == nil && len(s.B) > 0 {
				return False
			}
		}
		for _, s := range rest {
			cs = append(cs, Eq(strLen(s.A), Int(0)))
		}
		return And(cs...)
	}
	ra, rb := VStr{sa}, VStr{sb}
	la, lb := ra.length(), rb.length()
	if distinctTerms(la, lb) {
		return False
	}
	ta, tb := ra.term(), rb.term()
	if ta == tb {
		return And(cs...)
	}
	if ta.id > tb.id {
		ta, tb = tb, ta
	}
	cs = append(cs, mk(Term{Op: OEq, S: BoolSort, Args: []*Term{ta, tb}}))
	return And(cs...)
}

// ---------------------------------------------------------------- types / encoding

func under(t types.Type) types.Type { return t.Underlying() }

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	case types.UntypedRune:
		return 32
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

func isErrorType(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok && typeKey(t) == "error"
}

const bigW = 256

// encSorts gives the sorts of the term encoding of a type; ok=false if not encodable.
func encSorts(t types.Type) ([]*Sort, bool) {
	if isBigInt(t) {
		return []*Sort{BV(bigW)}, true
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []*Sort{BoolSort}, true
		}
		if u.Info()&types.IsString != 0 {
			return []*Sort{StrSort}, true
		}
		if w := intWidth(u); w > 0 {
			return []*Sort{BV(w)}, true
		}
		if u.Kind() == types.Float64 || u.Kind() == types.Float32 {
			return []*Sort{USort("Float")}, true
		}
	case *types.Array:
		if isByte(u.Elem()) && u.Len() > 0 {
			return []*Sort{BV(int(8 * u.Len()))}, true
		}
		es, ok := encSorts(u.Elem())
		if !ok || u.Len() > 64 {
			return nil, false
		}
		var out []*Sort
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, es...)
		}
		return out, true
	case *types.Slice:
		if isByte(u.Elem()) {
			return []*Sort{StrSort}, true
		}
		es, ok := encSorts(u.Elem())
		if !ok {
			return nil, false
		}
		var out []*Sort
		for _, e := range es {
			if e.K == SArr {
				return nil, false
			}
			out = append(out, ArrSort(BV(64), e))
		}
		return append(out, BV(64)), true
	case *types.Struct:
		if strings.HasPrefix(typeKey(t), "sync.") {
			return nil, true
		}
		var out []*Sort
		for i := 0; i < u.NumFields(); i++ {
			es, ok := encSorts(u.Field(i).Type())
			if !ok {
				return nil, false
			}
			out = append(out, es...)
		}
		return out, true
	case *types.Pointer:
		// only pointers to plain data; nil-ness is encoded as a flag
		if isBigInt(u.Elem()) {
			return []*Sort{BV(bigW)}, true
		}
		if _, ok := under(u.Elem()).(*types.Array); ok {
			return encSorts(u.Elem())
		}
		if st, ok := under(u.Elem()).(*types.Struct); ok && st.NumFields() < 12 && recDepth < 3 {
			recDepth++
			es, ok := encSorts(u.Elem())
			recDepth--
			if ok {
				return append([]*Sort{BoolSort}, es...), true
			}
		}
		return nil, false
	case *types.Interface:
		if isErrorType(t) {
			return []*Sort{BV(32)}, true
		}
	case *types.Map:
		ks, ok := keySort(u)
		if !ok {
			return nil, false
		}
		vs, ok := encSorts(u.Elem())
		if !ok {
			return nil, false
		}
		out := []*Sort{ArrSort(ks, BoolSort)}
		for _, v := range vs {
			if v.K == SArr {
				return nil, false
			}
			out = append(out, ArrSort(ks, v))
		}
		return out, true
	}
	return nil, false
}

// keySort: the sort of a map's keys; keys of several bit vectors are concatenated.
func keySort(mt *types.Map) (*Sort, bool) {
	ks, ok := encSorts(mt.Key())
	if !ok || len(ks) == 0 {
		return nil, false
	}
	if len(ks) == 1 {
		return ks[0], true
	}
	w := 0
	for _, k := range ks {
		if k.K != SBV {
			return nil, false
		}
		w += k.W
	}
	return BV(w), true
}

func (ex *Exec) encKey(st *State, mt *types.Map, key Val) *Term {
	ts := ex.encode(st, mt.Key(), key)
	if len(ts) == 1 {
		return ts[0]
	}
	return Concat(ts...)
}

func splitKey(mt *types.Map, k *Term) []*Term {
	ks, _ := encSorts(mt.Key())
	if len(ks) == 1 {
		return []*Term{k}
	}
	hi := k.S.W
	var out []*Term
	for _, s := range ks {
		out = append(out, Extract(k, hi-1, hi-s.W))
		hi -= s.W
	}
	return out
}

var recDepth int

func zeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return False
	case SBV:
		return BVI(0, s.W)
	case SArr:
		return ConstArr(s, zeroTerm(s.Val))
	}
	if s == StrSort {
		return litTerm(nil)
	}
	return Var("zero$"+s.Name, s)
}

func zeroVal(t types.Type) Val {
	if isBigInt(t) {
		return VBig{T: BVI(0, bigW)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return False
		}
		if u.Info()&types.IsString != 0 {
			return VStr{}
		}
		if w := intWidth(u); w > 0 {
			return BVI(0, w)
		}
		if u.Kind() == types.Float64 || u.Kind() == types.Float32 || u.Kind() == types.UntypedFloat {
			return Var("float0", USort("Float"))
		}
		if u.Kind() == types.UntypedNil {
			return VPtr{}
		}
		if u.Kind() == types.UnsafePointer {
			return VPtr{}
		}
	case *types.Array:
		n := int(u.Len())
		e := make([]Val, n)
		if n > 0 {
			z := zeroVal(u.Elem())
			for i := range e {
				e[i] = z
			}
		}
		return &VArr{e}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return &VStruct{f}
	case *types.Pointer:
		return VPtr{}
	case *types.Slice:
		return VSlice{Off: Int(0), Len: Int(0), Cap: Int(0)}
	case *types.Interface:
		return VIface{}
	case *types.Map:
		return VMap{}
	case *types.Signature:
		return VFunc{}
	case *types.Chan:
		return VOpaque{Name: "nilchan", T: t}
	case *types.Tuple:
		var tp VTuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, zeroVal(u.At(i).Type()))
		}
		return tp
	}
	panic(Unsup("zero value of " + typeKey(t)))
}

type UnsupErr struct{ Msg string }

func (u UnsupErr) Error() string { return u.Msg }
func Unsup(f string, a ...interface{}) UnsupErr {
	return UnsupErr{fmt.Sprintf(f, a...)}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
