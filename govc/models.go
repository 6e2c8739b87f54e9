package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome

var models map[string]modelFn

// errStringType stands for *errors.errorString, *fmt.wrapError etc.
var errStringType = func() *types.Named {
	pkg := types.NewPackage("errors", "errors")
	tn := types.NewTypeName(0, pkg, "errorString", nil)
	n := types.NewNamed(tn, types.NewStruct([]*types.Var{types.NewField(0, pkg, "s", types.Typ[types.String], false)}, nil), nil)
	recv := types.NewVar(0, pkg, "e", types.NewPointer(n))
	sig := types.NewSignatureType(recv, nil, nil, nil, types.NewTuple(types.NewVar(0, pkg, "", types.Typ[types.String])), false)
	n.AddMethod(types.NewFunc(0, pkg, "Error", sig))
	return n
}()

func (ex *Exec) newErr(st *State, s VStr) VIface {
	id := st.alloc(errStringType, &VStruct{F: []Val{s}})
	return VIface{T: types.NewPointer(errStringType), V: VPtr{Obj: id}}
}

func ret1(st *State, v ...Val) []*Outcome { return []*Outcome{{st, v}} }

// big reads *big.Int; ok=false when nil (obligation recorded).
func (ex *Exec) bigArg(st *State, v Val, in ssa.Instruction) (VBig, bool) {
	p, ok := v.(VPtr)
	if !ok {
		panic(Unsup("big.Int operand %T", v))
	}
	if p.Obj == 0 {
		ex.safe(st, "nil-deref", in, False)
		return VBig{}, false
	}
	switch b := ex.loadRaw(st, p).(type) {
	case VBig:
		return b, true
	default:
		panic(Unsup("big.Int content %T", b))
	}
}

func (ex *Exec) bigPair(st *State, a, b Val, in ssa.Instruction) (x, y VBig, ok bool) {
	if x, ok = ex.bigArg(st, a, in); !ok {
		return
	}
	y, ok = ex.bigArg(st, b, in)
	return
}

// bigLess: a < b with signs.
func bigLess(a, b VBig) *Term {
	x, y := eqWidth(a.T, b.T)
	l := Ult(x, y)
	g := Ult(y, x)
	an, bn := a.neg(), b.neg()
	return Ite(an, Ite(bn, g, True), Ite(bn, False, l))
}

func bigEq(a, b VBig) *Term {
	x, y := eqWidth(a.T, b.T)
	return And(Eq(x, y), Eq(a.neg(), b.neg()))
}

// trimBig shrinks a magnitude that is known to be small.
func trimBig(t *Term) *Term {
	m := maxU(t)
	w := m.BitLen()
	if w < bigW {
		w = bigW
	}
	if w < t.S.W {
		return Extract(t, w-1, 0)
	}
	return t
}

// beInt: value of big-endian bytes.
func (ex *Exec) beInt(st *State, s VSlice) *Term {
	r := ex.sliceRope(st, s)
	if _, ok := r.constLen(); ok {
		bs := r.bytes()
		rev := make([]*Term, len(bs))
		for i := range bs {
			rev[len(bs)-1-i] = bs[i]
		}
		if len(rev) == 0 {
			return BVI(0, bigW)
		}
		t := leConcat(rev)
		if t.S.W < bigW {
			t = Zext(t, bigW)
		}
		return t
	}
	return App("beint", BV(bigW), r.term())
}

// bigBytes: the minimal big-endian bytes, one outcome per length.
func (ex *Exec) bigBytes(st *State, b VBig) []*Outcome {
	t := b.T
	maxn := (maxU(t).BitLen() + 7) / 8
	if t.Op == OConst {
		bs := t.Val.Bytes()
		e := make([]*Term, len(bs))
		for i := range bs {
			e[i] = BVI(int64(bs[i]), 8)
		}
		return ret1(st, ex.bytesFromRope(st, ropeBytes(e), "big"))
	}
	var outs []*Outcome
	for n := maxn; n >= 0; n-- {
		var c *Term
		lo := new(big.Int)
		if n > 0 {
			lo.Lsh(big.NewInt(1), uint(8*(n-1)))
		}
		hi := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
		if n == 0 {
			c = Eq(t, BVI(0, t.S.W))
		} else {
			c = Ule(BVC(lo, t.S.W), t)
			if n < maxn || 8*n < t.S.W {
				c = And(c, Ult(t, BVC(hi, t.S.W)))
			}
		}
		if !ex.feasible(st, c) {
			continue
		}
		s := st.clone()
		s.assume(c)
		var bs []*Term
		for i := n - 1; i >= 0; i-- {
			bs = append(bs, Extract(t, 8*i+7, 8*i))
		}
		outs = append(outs, &Outcome{s, []Val{ex.bytesFromRope(s, ropeBytes(bs), "big")}})
	}
	return outs
}

func (ex *Exec) setBig(st *State, p Val, b VBig) {
	ex.storeRaw(st, p.(VPtr), b)
}

func (ex *Exec) newBig(st *State, b VBig) VPtr {
	return VPtr{Obj: st.alloc(ex.bigType(), b)}
}

var bigIntType types.Type

func (ex *Exec) bigType() types.Type {
	if bigIntType != nil {
		return bigIntType
	}
	return errStringType
}

func lockKey(p VPtr) string { return sprintf("%d|%s", p.Obj, pathKey(p.Path)) }

// guardAccess: see lockcheck.go.
func (ex *Exec) lockModel(kind string) modelFn {
	return func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
		p := args[0].(VPtr)
		if p.Obj == 0 {
			ex.safe(st, "nil-deref", in, False)
			return nil
		}
		k := lockKey(p)
		st.lockUse = true
		cur := st.locks[k]
		ok := true
		nv := cur
		switch kind {
		case "Lock":
			ok = cur == 0
			nv = -1
		case "RLock":
			ok = cur >= 0
			nv = cur + 1
		case "Unlock":
			ok = cur == -1
			nv = 0
		case "RUnlock":
			ok = cur > 0
			nv = cur - 1
		}
		if !ok {
			if !ex.feasible(st, True) {
				return nil
			}
			ex.oblige(st, "lock:"+kind, ex.posIn(in), False)
			return nil
		}
		if nv == 0 {
			delete(st.locks, k)
		} else {
			st.locks[k] = nv
		}
		return ret1(st)
	}
}

func (ex *Exec) posIn(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	return ex.pos(in.Pos())
}

func isErrStringPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && p.Elem() == errStringType
}

// bytesArg: rope of a []byte or string argument
func (ex *Exec) bytesArg(st *State, v Val) VStr {
	switch x := v.(type) {
	case VSlice:
		return ex.sliceRope(st, x)
	case VStr:
		return ex.normRope(st, x)
	}
	panic(Unsup("bytes argument %T", v))
}

func hasPrefixTerm(s, p VStr) *Term {
	lp := p.length()
	ls := s.length()
	c := Ule(lp, ls)
	if c == False {
		return False
	}
	// s[:len(p)] == p, bytewise for constant prefixes
	if n, ok := p.constLen(); ok {
		if n == 0 {
			return True
		}
		pb := p.bytes()
		cs := []*Term{c}
		if cn, ok := s.constLen(); ok {
			if cn < n {
				return False
			}
			sb := s.bytes()
			for i := range pb {
				cs = append(cs, Eq(sb[i], pb[i]))
			}
			return And(cs...)
		}
		for i := range pb {
			cs = append(cs, Eq(ropeByte(s, Int(int64(i))), pb[i]))
		}
		return And(cs...)
	}
	return And(c, eqRope(ropeSub(s, Int(0), lp), p))
}

func init() {
	injUF["inj$sha256"] = true
	models = map[string]modelFn{
		"errors.New": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, ex.newErr(st, args[0].(VStr)))
		},
		"fmt.Errorf": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, ex.newErr(st, VStr{[]Seg{{A: Fresh("errtext", StrSort)}}}))
		},
		"math/big.NewInt": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, ex.newBig(st, bigOfInt64(args[0].(*Term))))
		},
		"(*math/big.Int).SetInt64": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			if _, ok := ex.bigArg(st, args[0], in); !ok {
				return nil
			}
			ex.setBig(st, args[0], bigOfInt64(args[1].(*Term)))
			return ret1(st, args[0])
		},
		"(*math/big.Int).SetUint64": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			if _, ok := ex.bigArg(st, args[0], in); !ok {
				return nil
			}
			ex.setBig(st, args[0], VBig{T: Zext(args[1].(*Term), bigW)})
			return ret1(st, args[0])
		},
		"(*math/big.Int).Set": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			_, y, ok := ex.bigPair(st, args[0], args[1], in)
			if !ok {
				return nil
			}
			ex.setBig(st, args[0], y)
			return ret1(st, args[0])
		},
		"(*math/big.Int).SetBytes": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			if _, ok := ex.bigArg(st, args[0], in); !ok {
				return nil
			}
			ex.setBig(st, args[0], VBig{T: ex.beInt(st, args[1].(VSlice))})
			return ret1(st, args[0])
		},
		"(*math/big.Int).Bytes": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			b, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			return ex.bigBytes(st, b)
		},
		"(*math/big.Int).FillBytes": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			b, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			s := args[1].(VSlice)
			n, ok := constIdx(s.Len)
			if !ok {
				panic(Unsup("FillBytes of unknown length"))
			}
			if !ex.safe(st, "fillbytes", in, Eq(Lshr(b.T, BVI(int64(8*n), b.T.S.W)), BVI(0, b.T.S.W))) {
				return nil
			}
			t := Zext(b.T, 8*n)
			if b.T.S.W > 8*n {
				t = Extract(b.T, 8*n-1, 0)
			}
			le := leBytes(t)
			for i := 0; i < n; i++ {
				ex.storeRaw(st, VPtr{Obj: s.Obj, Path: extPath(s.Path, selOf(Add(s.Off, Int(int64(i)))))}, le[n-1-i])
			}
			return ret1(st, s)
		},
		"(*math/big.Int).Cmp": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, y, ok := ex.bigPair(st, args[0], args[1], in)
			if !ok {
				return nil
			}
			return ret1(st, Ite(bigLess(x, y), Int(-1), Ite(bigEq(x, y), Int(0), Int(1))))
		},
		"(*math/big.Int).Sign": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			return ret1(st, Ite(Eq(x.T, BVI(0, x.T.S.W)), Int(0), Ite(x.neg(), Int(-1), Int(1))))
		},
		"(*math/big.Int).BitLen": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			r := Int(0)
			for i := 0; i < x.T.S.W; i++ {
				r = Ite(Eq(Extract(x.T, i, i), BVI(1, 1)), Int(int64(i+1)), r)
			}
			return ret1(st, r)
		},
		"(*math/big.Int).Add": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, y, ok := ex.bigPair(st, args[1], args[2], in)
			if !ok {
				return nil
			}
			if x.neg() != False || y.neg() != False {
				panic(Unsup("big.Int.Add of negative"))
			}
			a, b := eqWidth(x.T, y.T)
			ex.setBig(st, args[0], VBig{T: trimBig(Add(Zext(a, a.S.W+1), Zext(b, b.S.W+1)))})
			return ret1(st, args[0])
		},
		"(*math/big.Int).Sub": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, y, ok := ex.bigPair(st, args[1], args[2], in)
			if !ok {
				return nil
			}
			if x.neg() != False || y.neg() != False {
				panic(Unsup("big.Int.Sub of negative"))
			}
			a, b := eqWidth(x.T, y.T)
			lt := Ult(a, b)
			ex.setBig(st, args[0], VBig{T: Ite(lt, Sub(b, a), Sub(a, b)), Neg: lt})
			return ret1(st, args[0])
		},
		"(*math/big.Int).Uint64": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			lo := Extract(x.T, 63, 0)
			return ret1(st, Ite(x.neg(), Neg(lo), lo))
		},
		"(*math/big.Int).Int64": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			lo := Extract(x.T, 63, 0)
			return ret1(st, Ite(x.neg(), Neg(lo), lo))
		},
		"(*math/big.Int).IsUint64": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			return ret1(st, And(Not(x.neg()), Eq(Lshr(x.T, BVI(64, x.T.S.W)), BVI(0, x.T.S.W))))
		},
		"(*math/big.Int).Bit": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			i := args[1].(*Term)
			return ret1(st, Ite(Ult(i, Int(int64(x.T.S.W))), Zext(Extract(Lshr(x.T, Zext(i, x.T.S.W)), 0, 0), 64), Int(0)))
		},
		"(*math/big.Int).String": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			x, ok := ex.bigArg(st, args[0], in)
			if !ok {
				return nil
			}
			t := x.T
			if t.S.W > bigW {
				t = Extract(t, bigW-1, 0)
			}
			return ret1(st, VStr{[]Seg{{A: App("inj$decimal", StrSort, Zext(t, bigW))}}})
		},
		"github.com/iden3/go-iden3-crypto/poseidon.PoseidonHash": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			a := args[0].(*VArr)
			var ts []*Term
			var cs []*Term
			q := BVC(fieldQ, bigW)
			for _, e := range a.E {
				b, ok := ex.bigArg(st, e, in)
				if !ok {
					return nil
				}
				t := b.T
				if t.S.W > bigW {
					cs = append(cs, Ult(t, BVC(fieldQ, t.S.W)))
					t = Extract(t, bigW-1, 0)
				} else {
					t = Zext(t, bigW)
					cs = append(cs, Ult(t, q))
				}
				if b.neg() != False {
					panic(Unsup("hash of negative number"))
				}
				ts = append(ts, t)
			}
			good, bad := ex.fork(st, And(cs...))
			var outs []*Outcome
			if good != nil {
				h := App(sprintf("pos%d", len(ts)), BV(bigW), ts...)
				outs = append(outs, &Outcome{good, []Val{ex.newBig(good, VBig{T: h}), VIface{}}})
			}
			if bad != nil {
				outs = append(outs, &Outcome{bad, []Val{VPtr{}, ex.newErr(bad, ropeConst("inputs values not inside Finite Field"))}})
			}
			return outs
		},
		"github.com/iden3/go-iden3-crypto/poseidon.HashBytes": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.sliceRope(st, args[0].(VSlice))
			return ret1(st, ex.newBig(st, VBig{T: App("posbytes", BV(bigW), r.term())}))
		},
		"crypto/sha256.Sum256": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.sliceRope(st, args[0].(VSlice))
			h := App("inj$sha256", BV(256), r.term())
			e := make([]Val, 32)
			for i, b := range leBytes(h) {
				e[i] = b
			}
			return ret1(st, &VArr{e})
		},
		"bytes.Equal": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, eqRope(ex.bytesArg(st, args[0]), ex.bytesArg(st, args[1])))
		},
		"bytes.HasPrefix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, hasPrefixTerm(ex.bytesArg(st, args[0]), ex.bytesArg(st, args[1])))
		},
		"strings.HasPrefix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, hasPrefixTerm(ex.bytesArg(st, args[0]), ex.bytesArg(st, args[1])))
		},
		"strings.Contains": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			s, p := ex.bytesArg(st, args[0]), ex.bytesArg(st, args[1])
			c, ok := p.constStr()
			if !ok {
				return ret1(st, Fresh("contains", BoolSort))
			}
			if k, ok := s.constStr(); ok {
				return ret1(st, BoolT(strings.Contains(k, c)))
			}
			return ret1(st, App("contains$"+c, BoolSort, s.term()))
		},
		"fmt.Sprintf": sprintfModel,
		"strconv.Itoa": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			d, ok := ex.decimal(st, args[0].(*Term), true)
			if !ok {
				d = VStr{[]Seg{{A: Fresh("Itoa", StrSort)}}}
			}
			return ret1(st, d)
		},
		"strings.TrimPrefix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			s, p := ex.bytesArg(st, args[0]), ex.bytesArg(st, args[1])
			t, f := ex.fork(st, hasPrefixTerm(s, p))
			var outs []*Outcome
			if t != nil {
				outs = append(outs, &Outcome{t, []Val{ex.normRope(t, ropeSub(s, p.length(), s.length()))}})
			}
			if f != nil {
				outs = append(outs, &Outcome{f, []Val{s}})
			}
			return outs
		},
		"bytes.NewBufferString": newBufferModel,
		"bytes.NewBuffer":       newBufferModel,
		"(*bytes.Buffer).Write": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			p := args[0].(VPtr)
			if p.Obj == 0 {
				ex.safe(st, "nil-deref", in, False)
				return nil
			}
			r := ex.bytesArg(st, args[1])
			cur := ex.bufRope(st, p)
			ex.setBuf(st, p, ropeCat(cur, r))
			return ret1(st, r.length(), VIface{})
		},
		"(*bytes.Buffer).Bytes": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			s := ex.bytesFromRope(st, ex.normRope(st, ex.bufRope(st, args[0].(VPtr))), "buf")
			st.heap[s.Obj].CapUnk = true
			return ret1(st, s)
		},
		"(*bytes.Buffer).String": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, ex.normRope(st, ex.bufRope(st, args[0].(VPtr))))
		},
		"(*bytes.Buffer).Len": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, ex.bufRope(st, args[0].(VPtr)).length())
		},
		"encoding/hex.EncodeToString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.bytesArg(st, args[0])
			return ret1(st, VStr{[]Seg{{A: App("hexenc", StrSort, r.term())}}})
		},
		"encoding/hex.DecodeString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.bytesArg(st, args[0])
			return hexDecode(ex, st, r)
		},
		"encoding/hex.DecodedLen": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, SDiv(args[0].(*Term), Int(2)))
		},
		"encoding/hex.Decode": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			dst := args[0].(VSlice)
			r := ex.bytesArg(st, args[1])
			// decodes into dst: panics when dst is too short for the decodable prefix
			var outs []*Outcome
			for _, o := range hexDecode(ex, st, r) {
				n := o.Ret[0].(VSlice).Len
				if _, isNil := o.Ret[1].(VIface); isNil && o.Ret[1].(VIface).T == nil && o.Ret[1].(VIface).Opq == nil {
					if !ex.safe(o.St, "hex-decode-length", in, Ule(n, dst.Len)) {
						continue
					}
					for _, c := range ex.copyBytes(o.St, dst, ex.sliceRope(o.St, o.Ret[0].(VSlice)), in) {
						outs = append(outs, &Outcome{c.St, []Val{n, VIface{}}})
					}
				} else {
					// partial decoding: dst must hold it, its content is unspecified afterwards
					if !ex.safe(o.St, "hex-decode-length", in, Ule(Lshr(r.length(), Int(1)), dst.Len)) {
						continue
					}
					ex.havocSlice(o.St, dst)
					outs = append(outs, &Outcome{o.St, []Val{Fresh("hexn", BV(64)), o.Ret[1]}})
				}
			}
			return outs
		},
		"(*encoding/base64.Encoding).EncodeToString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.bytesArg(st, args[1])
			return ret1(st, VStr{[]Seg{{A: App(b64Name(args[0])+"enc", StrSort, r.term())}}})
		},
		"(*encoding/base64.Encoding).DecodeString": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.bytesArg(st, args[1])
			return ufDecode(ex, st, b64Name(args[0]), r)
		},
		"github.com/btcsuite/btcutil/base58.Encode": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.bytesArg(st, args[0])
			return ret1(st, VStr{[]Seg{{A: App("b58enc", StrSort, r.term())}}})
		},
		"github.com/btcsuite/btcutil/base58.Decode": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			r := ex.bytesArg(st, args[0])
			if t := r.term(); t.Op == OApp && t.Name == "b58enc" {
				return ret1(st, ex.bytesFromRope(st, ex.normRope(st, ropeOfTerm(t.Args[0])), "b58"))
			}
			return ret1(st, ex.bytesFromRope(st, VStr{[]Seg{{A: App("b58val", StrSort, r.term())}}}, "b58"))
		},
		"time.Now": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			sec := Fresh("now.sec", BV(64))
			ns := Fresh("now.ns", BV(64))
			st.assume(Ult(ns, BVI(1000000000, 64)))
			st.assume(Ult(sec, BVU(1<<40, 64)))
			if g, ok := st.ghost["clock"].(*Term); ok {
				st.assume(Ule(g, sec)) // the clock is not set back
			}
			st.ghost["clock"] = sec
			t := fn.Signature.Results().At(0).Type()
			return ret1(st, mkTime(t, sec, ns))
		},
		"time.Unix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			ns := args[1].(*Term)
			if !isZero(ns) {
				panic(Unsup("time.Unix with nanoseconds"))
			}
			return ret1(st, mkTime(fn.Signature.Results().At(0).Type(), args[0].(*Term), ns))
		},
		"(time.Time).Unix": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, args[0].(*VStruct).F[1])
		},
		"(time.Time).Nanosecond": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, args[0].(*VStruct).F[0])
		},
		"(time.Time).UTC": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, args[0])
		},
		"(time.Time).Before": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, timeLess(args[0], args[1]))
		},
		"(time.Time).After": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			return ret1(st, timeLess(args[1], args[0]))
		},
		"(time.Time).Equal": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			a, b := args[0].(*VStruct), args[1].(*VStruct)
			return ret1(st, And(Eq(a.F[0].(*Term), b.F[0].(*Term)), Eq(a.F[1].(*Term), b.F[1].(*Term))))
		},
		"(time.Time).Add": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			a := args[0].(*VStruct)
			d := args[1].(*Term)
			g := BVI(1000000000, 64)
			if d.Op == OMul && len(d.Args) == 2 {
				for k := 0; k < 2; k++ {
					if d.Args[k] == g {
						// whole seconds; exact while the product does not overflow
						s := d.Args[1-k]
						lim := BVI(9000000000, 64)
						st2, st3 := ex.fork(st, And(Sle(Neg(lim), s), Sle(s, lim)))
						var outs []*Outcome
						if st2 != nil {
							outs = append(outs, &Outcome{st2, []Val{mkTimeLike(a, Add(a.F[1].(*Term), s), a.F[0].(*Term))}})
						}
						if st3 != nil {
							outs = append(outs, &Outcome{st3, []Val{mkTimeLike(a, Fresh("t.sec", BV(64)), Fresh("t.ns", BV(64)))}})
						}
						return outs
					}
				}
			}
			if c, ok := constIdx(SRem(d, g)); ok && c == 0 {
				return ret1(st, mkTimeLike(a, Add(a.F[1].(*Term), SDiv(d, g)), a.F[0].(*Term)))
			}
			q, r := SDiv(d, g), SRem(d, g)
			ns := Add(a.F[0].(*Term), r)
			over := Sle(g, ns)
			under := Slt(ns, Int(0))
			ns2 := Ite(over, Sub(ns, g), Ite(under, Add(ns, g), ns))
			sec := Add(a.F[1].(*Term), q)
			sec2 := Ite(over, Add(sec, Int(1)), Ite(under, Sub(sec, Int(1)), sec))
			return ret1(st, mkTimeLike(a, sec2, ns2))
		},
		"reflect.DeepEqual": func(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
			a, b := args[0].(VIface), args[1].(VIface)
			return ret1(st, ex.deepEq(st, a, b))
		},
	}
	for _, k := range []string{"Lock", "Unlock"} {
		models["(*sync.Mutex)."+k] = (*Exec)(nil).lockModel(k)
	}
	for _, k := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		models["(*sync.RWMutex)."+k] = (*Exec)(nil).lockModel(k)
	}
	userAxioms["hexenc"] = func(t *Term) []*Term {
		return []*Term{
			Eq(App("strlen", BV(64), t), Shl(strLen(t.Args[0]), Int(1))),
			App("hexok", BoolSort, t),
			Implies(Ule(Int(1), strLen(t.Args[0])), Not(Eq(Select(App("bytesof", ArrSort(BV(64), BV(8)), t), Int(1)), BVI('x', 8)))),
			mk(Term{Op: OEq, S: BoolSort, Args: []*Term{App("hexval", StrSort, t), t.Args[0]}}),
		}
	}
	userAxioms["hexval"] = func(t *Term) []*Term {
		l := App("strlen", BV(64), t)
		s := strLen(t.Args[0])
		return []*Term{Implies(App("hexok", BoolSort, t.Args[0]), And(Eq(l, Lshr(s, Int(1))), Eq(Extract(s, 0, 0), BVI(0, 1))))}
	}
	for _, n := range []string{"b64std", "b64raw"} {
		n := n
		userAxioms[n+"enc"] = func(t *Term) []*Term {
			ax := []*Term{
				App(n+"ok", BoolSort, t),
				mk(Term{Op: OEq, S: BoolSort, Args: []*Term{App(n+"val", StrSort, t), t.Args[0]}}),
			}
			if n == "b64std" {
				// without padding both encodings are the same text
				ax = append(ax, Or(App("contains$=", BoolSort, t), And(App("b64rawok", BoolSort, t), mk(Term{Op: OEq, S: BoolSort, Args: []*Term{App("b64rawval", StrSort, t), t.Args[0]}}))))
			} else {
				ax = append(ax, Not(App("contains$=", BoolSort, t)))
			}
			return ax
		}
		userAxioms[n+"val"] = func(t *Term) []*Term {
			return []*Term{Ule(App("strlen", BV(64), t), strLen(t.Args[0]))}
		}
	}
	userAxioms["hexok"] = func(t *Term) []*Term {
		s := t.Args[0]
		// the second character of a hex text is a digit, so no 0x prefix follows
		return []*Term{Implies(And(t, Ule(Int(2), strLen(s))), Not(Eq(ropeByte(ropeOfTerm(s), Int(1)), BVI('x', 8))))}
	}
	userAxioms["b58enc"] = func(t *Term) []*Term {
		return []*Term{
			mk(Term{Op: OEq, S: BoolSort, Args: []*Term{App("b58val", StrSort, t), t.Args[0]}}),
		}
	}
}

func bigOfInt64(t *Term) VBig {
	if k, ok := t.Int64(); ok && k >= 0 {
		return VBig{T: BVI(k, bigW)}
	}
	neg := Slt(t, Int(0))
	if neg == False {
		return VBig{T: Zext(t, bigW)}
	}
	return VBig{T: Zext(Ite(neg, Neg(t), t), bigW), Neg: neg}
}

func mkTime(t types.Type, sec, ns *Term) Val {
	return &VStruct{F: []Val{ns, sec, VPtr{}}}
}
func mkTimeLike(a *VStruct, sec, ns *Term) Val { return &VStruct{F: []Val{ns, sec, a.F[2]}} }

func timeLess(a, b Val) *Term {
	x, y := a.(*VStruct), b.(*VStruct)
	// Go compares seconds since year 1, which wrap for very late times
	k := BVI(62135596800, 64)
	return Or(Slt(Add(x.F[1].(*Term), k), Add(y.F[1].(*Term), k)), And(Eq(x.F[1].(*Term), y.F[1].(*Term)), Ult(x.F[0].(*Term), y.F[0].(*Term))))
}

func hexDecode(ex *Exec, st *State, r VStr) []*Outcome {
	return ufDecode(ex, st, "hex", r)
}

// ufDecode: a text decoder given by uninterpreted validity and value functions.
func ufDecode(ex *Exec, st *State, n string, r VStr) []*Outcome {
	t := r.term()
	if t.Op == OApp && strings.HasPrefix(t.Name, "lit$") && len(t.Args) == 1 && t.Args[0].Op == OApp && strings.HasPrefix(t.Args[0].Name, "fix$") {
		t = t.Args[0].Args[0] // the text of known length was expanded into its bytes
	}
	if t.Op == OApp && t.Name == n+"enc" {
		return ret1(st, ex.bytesFromRope(st, ex.normRope(st, ropeOfTerm(t.Args[0])), n), VIface{})
	}
	good, bad := ex.fork(st, App(n+"ok", BoolSort, t))
	var outs []*Outcome
	if good != nil {
		v := App(n+"val", StrSort, t)
		for _, a := range userAxioms[n+"val"](v) {
			good.assume(a)
		}
		outs = append(outs, &Outcome{good, []Val{ex.bytesFromRope(good, ex.normRope(good, VStr{[]Seg{{A: v}}}), n), VIface{}}})
	}
	if bad != nil {
		outs = append(outs, &Outcome{bad, []Val{ex.bytesFromRope(bad, VStr{[]Seg{{A: Fresh(n+".partial", StrSort)}}}, n), ex.newErr(bad, ropeConst(n))}})
	}
	return outs
}

func (ex *Exec) bufRope(st *State, p VPtr) VStr {
	if p.Obj == 0 {
		panic(Unsup("nil buffer"))
	}
	s, ok := ex.loadRaw(st, p).(*VStruct)
	if !ok {
		panic(Unsup("bytes.Buffer content"))
	}
	switch b := s.F[0].(type) {
	case VSlice:
		return ex.sliceRope(st, b)
	}
	panic(Unsup("bytes.Buffer content"))
}

// newBufferModel: a new buffer holding the argument (later writes to the argument's memory are
// not seen by the buffer: contents are treated as a snapshot).
func newBufferModel(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
	t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	p := VPtr{Obj: st.alloc(t, zeroVal(t))}
	ex.setBuf(st, p, ex.bytesArg(st, args[0]))
	return ret1(st, p)
}

func (ex *Exec) setBuf(st *State, p VPtr, r VStr) {
	s := ex.loadRaw(st, p).(*VStruct)
	n := &VStruct{F: append([]Val{}, s.F...)}
	n.F[0] = ex.bytesFromRope(st, r, "buf")
	ex.storeRaw(st, p, n)
}

func (ex *Exec) havocSlice(st *State, s VSlice) {
	if s.Obj == 0 {
		return
	}
	n, ok := constIdx(s.Len)
	if !ok {
		a := Fresh("hv", StrSort)
		st.assume(Eq(App("strlen", BV(64), a), s.Len))
		ex.copyBytes(st, s, VStr{[]Seg{{A: a}}}, nil)
		return
	}
	for i := 0; i < n; i++ {
		ex.storeRaw(st, VPtr{Obj: s.Obj, Path: extPath(s.Path, selOf(Add(s.Off, Int(int64(i)))))}, Fresh("hv", BV(8)))
	}
}

// deepEq models reflect.DeepEqual on plain data.
func (ex *Exec) deepEq(st *State, a, b VIface) *Term {
	if a.T == nil || b.T == nil {
		return BoolT(a.T == nil && b.T == nil)
	}
	if !types.Identical(a.T, b.T) {
		return False
	}
	ea, eb := ex.encode(st, a.T, a.V), ex.encode(st, b.T, b.V)
	var cs []*Term
	for i := range ea {
		cs = append(cs, Eq(ea[i], eb[i]))
	}
	return And(cs...)
}

// extGlobal gives the value of a global of a dependency.
func (ex *Exec) extGlobal(g *ssa.Global) (Val, bool) {
	et := g.Type().(*types.Pointer).Elem()
	switch g.String() {
	case "github.com/iden3/go-iden3-crypto/constants.Q":
		objCnt++
		globalHeap[objCnt] = &Obj{ID: objCnt, T: et.(*types.Pointer).Elem(), V: VBig{T: BVC(fieldQ, bigW)}, Global: true, Input: g.String()}
		return VPtr{Obj: objCnt}, true
	}
	if s, ok := under(et).(*types.Struct); ok && s.NumFields() == 0 {
		return zeroVal(et), true
	}
	return nil, false
}

// purePkgs: dependencies whose functions only compute results; calls get arbitrary results.
var purePkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "encoding/hex": true, "encoding/json": true, "os": true,
	"path": true, "time": true, "github.com/sirupsen/logrus": true, "log": true, "crypto/rand": true, "bufio": true, "io": true, "errors": true}

// external models a function without a body: arbitrary results; pointer arguments of known writers are havocked.
func (ex *Exec) external(st *State, fn *ssa.Function, args []Val) []*Outcome {
	name := fn.String()
	ex.trusted["external:"+name] = true
	if h, ok := externals[name]; ok {
		return h(ex, st, fn, args, nil)
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	if !purePkgs[pk] {
		panic(Unsup("external function %s", name))
	}
	outs := []*Outcome{{st, nil}}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		var nx []*Outcome
		for _, o := range outs {
			for _, alt := range ex.resultAlts(o.St, fn.Signature.Results().At(i).Type(), fn.Name()) {
				nx = append(nx, &Outcome{alt.St, append(o.Ret[:len(o.Ret):len(o.Ret)], alt.Ret[0])})
			}
		}
		outs = nx
	}
	return outs
}

var externals = map[string]modelFn{}

// ---- builtins

func (ex *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Val, in ssa.Instruction) []*Outcome {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case VSlice:
			return ret1(st, x.Len)
		case VStr:
			return ret1(st, ex.normRope(st, x).length())
		case VMap:
			if x.Obj != 0 {
				ex.guardAccess(st, c.Args[0], VPtr{Obj: x.Obj}, false, in)
			}
			mc := ex.mapContent(st, x, under(c.Args[0].Type()).(*types.Map))
			if mc.Card != nil && mc.Has != nil {
				return ret1(st, mc.Card)
			}
			if mc.Has == nil {
				return ret1(st, ex.listCard(st, mc))
			}
			n := Fresh("maplen", BV(64))
			st.assume(Ult(n, BVU(1<<40, 64)))
			return ret1(st, n)
		case *VArr:
			return ret1(st, Int(int64(len(x.E))))
		case VPtr:
			return ret1(st, Int(under(c.Args[0].Type().(*types.Pointer).Elem()).(*types.Array).Len()))
		}
		panic(Unsup("len of %T", args[0]))
	case "cap":
		if x, ok := args[0].(VSlice); ok {
			if x.Obj != 0 && st.obj(x.Obj).CapUnk {
				n := Fresh("cap", BV(64))
				st.assume(And(Ule(x.Len, n), Ult(n, BVU(1<<41, 64))))
				return ret1(st, n)
			}
			return ret1(st, x.Cap)
		}
		panic(Unsup("cap of %T", args[0]))
	case "append":
		return ex.appendB(st, c, args, in)
	case "copy":
		return ex.copyB(st, c, args, in)
	case "delete":
		m := args[0].(VMap)
		if m.Obj == 0 {
			return ret1(st)
		}
		bs := &BState{st: st}
		ex.guardAccess(st, c.Args[0], VPtr{Obj: m.Obj}, true, in)
		ex.mapUpdate(bs, m, under(c.Args[0].Type()).(*types.Map), args[1], nil, true)
		return ret1(bs.st)
	case "panic":
		ex.safe(st, "panic", in, False)
		return nil
	case "print", "println":
		return ret1(st)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(VPtr); ok && p.Obj == 0 {
			ex.safe(st, "nil-deref", in, False)
			return nil
		}
		return ret1(st, args[0])
	case "recover":
		return ret1(st, VIface{})
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(c.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if sg {
				lt = Slt(t, r)
			} else {
				lt = Ult(t, r)
			}
			if name == "max" {
				if sg {
					lt = Slt(r, t)
				} else {
					lt = Ult(r, t)
				}
			}
			r = Ite(lt, t, r)
		}
		return ret1(st, r)
	}
	panic(Unsup("builtin %s", name))
}

func (ex *Exec) listCard(st *State, mc *VMapC) *Term {
	// number of distinct live keys in a list-mode map
	n := Int(0)
	for i, u := range mc.L {
		if u.Del {
			continue
		}
		live := True
		for _, l := range mc.L[i+1:] {
			live = And(live, Not(ex.eqVals(st, mc.KT, u.K, l.K)))
		}
		n = Add(n, Ite(live, Int(1), Int(0)))
	}
	return n
}

// appendB: append. Appending into spare capacity that somebody else may hold is an obligation.
func (ex *Exec) appendB(st *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []*Outcome {
	s := args[0].(VSlice)
	t := c.Args[0].Type()
	et := under(t).(*types.Slice).Elem()
	var add *Term
	var addRope VStr
	var addS VSlice
	switch y := args[1].(type) {
	case VSlice:
		addS = y
		add = y.Len
	case VStr:
		addRope = ex.normRope(st, y)
		add = addRope.length()
	default:
		panic(Unsup("append of %T", args[1]))
	}
	// aliasing
	if s.Obj != 0 {
		o := st.obj(s.Obj)
		grow := Ult(s.Cap, Add(s.Len, add))
		if !o.CapUnk && !isZero(add) && grow != True {
			// room inside the known capacity: the write lands in the caller-visible backing array
			inPlace := And(Not(grow), Not(Eq(add, Int(0))))
			if o.Input != "" || o.Apnd {
				if !ex.safe(st, "append-clobbers-spare-capacity", in, Not(inPlace)) {
					return nil
				}
			} else {
				a, b := ex.fork(st, inPlace)
				if a != nil && b == nil {
					return ex.appendInPlace(a, s, addS, addRope, add, et, in)
				}
				if a != nil && b != nil {
					// either way the elements are the same; the old slice must not be appended to again
					no := *o
					no.Apnd = true
					a.heap[s.Obj] = &no
					b.heap[s.Obj] = &no
					return append(ex.appendNew(a, s, addS, addRope, add, et, t, in), ex.appendNew(b, s, addS, addRope, add, et, t, in)...)
				}
			}
		} else if o.CapUnk && !isZero(add) {
			if o.Apnd && !isZero(s.Len) {
				if !ex.safe(st, "append-twice-to-shared-backing", in, False) {
					return nil
				}
			}
			no := *o
			no.Apnd = true
			st.heap[s.Obj] = &no
		}
	}
	return ex.appendNew(st, s, addS, addRope, add, et, t, in)
}

func (ex *Exec) appendInPlace(st *State, s, addS VSlice, addRope VStr, add *Term, et types.Type, in ssa.Instruction) []*Outcome {
	ns := VSlice{Obj: s.Obj, Path: s.Path, Off: s.Off, Len: Add(s.Len, add), Cap: s.Cap}
	dst := VSlice{Obj: s.Obj, Path: s.Path, Off: Add(s.Off, s.Len), Len: add, Cap: add}
	if isByte(et) {
		r := addRope
		if addS.Obj != 0 {
			r = ex.sliceRope(st, addS)
		}
		var outs []*Outcome
		for _, o := range ex.copyBytes(st, dst, r, in) {
			outs = append(outs, &Outcome{o.St, []Val{ns}})
		}
		return outs
	}
	n, ok := constIdx(add)
	if !ok {
		panic(Unsup("append of unknown count in place"))
	}
	for i := 0; i < n; i++ {
		v := ex.loadRaw(st, VPtr{Obj: addS.Obj, Path: extPath(addS.Path, selOf(Add(addS.Off, Int(int64(i)))))})
		ex.storeRaw(st, VPtr{Obj: s.Obj, Path: extPath(s.Path, selOf(Add(dst.Off, Int(int64(i)))))}, v)
	}
	return ret1(st, ns)
}

func (ex *Exec) appendNew(st *State, s, addS VSlice, addRope VStr, add *Term, et, t types.Type, in ssa.Instruction) []*Outcome {
	if isByte(et) {
		r := addRope
		if addS.Obj != 0 {
			r = ex.sliceRope(st, addS)
		}
		res := ropeCat(ex.sliceRope(st, s), r)
		v := ex.bytesFromRope(st, ex.normRope(st, res), "append")
		st.heap[v.Obj].CapUnk = true
		if s.Obj == 0 && isZero(v.Len) {
			return ret1(st, s)
		}
		return ret1(st, v)
	}
	n, okn := constIdx(add)
	if okn && n == 0 {
		return ret1(st, s)
	}
	elems := func() []Val {
		var r []Val
		for i := 0; i < n; i++ {
			r = append(r, ex.loadRaw(st, VPtr{Obj: addS.Obj, Path: extPath(addS.Path, selOf(Add(addS.Off, Int(int64(i)))))}))
		}
		return r
	}
	l, okl := constIdx(s.Len)
	if okn && okl && s.Obj == 0 {
		id := st.alloc(t, &VArr{elems()})
		st.heap[id].CapUnk = true
		return ret1(st, VSlice{Obj: id, Off: Int(0), Len: Int(int64(n)), Cap: Int(int64(n))})
	}
	if s.Obj == 0 {
		// copy of a symbolic slice
		c := ex.readPath(st, st.obj(addS.Obj).V, addS.Path, nil)
		if sa, ok := c.(VSymArr); ok && isZero(addS.Off) {
			id := st.alloc(t, sa)
			st.heap[id].CapUnk = true
			return ret1(st, VSlice{Obj: id, Off: Int(0), Len: add, Cap: add})
		}
		panic(Unsup("append of a symbolic slice"))
	}
	c := ex.readPath(st, st.obj(s.Obj).V, s.Path, nil)
	switch x := c.(type) {
	case *VArr:
		off, oko := constIdx(s.Off)
		if okn && okl && oko {
			e := append([]Val{}, x.E[off:off+l]...)
			e = append(e, elems()...)
			id := st.alloc(t, &VArr{e})
			st.heap[id].CapUnk = true
			return ret1(st, VSlice{Obj: id, Off: Int(0), Len: Int(int64(len(e))), Cap: Int(int64(len(e)))})
		}
	case VSymArr:
		if okn && isZero(s.Off) {
			na := VSymArr{Elem: x.Elem, Len: Add(s.Len, add)}
			na.Arr = append(na.Arr, x.Arr...)
			for i, v := range elems() {
				enc := ex.encode(st, x.Elem, v)
				for k := range na.Arr {
					na.Arr[k] = Store(na.Arr[k], Add(s.Len, Int(int64(i))), enc[k])
				}
			}
			id := st.alloc(t, na)
			st.heap[id].CapUnk = true
			return ret1(st, VSlice{Obj: id, Off: Int(0), Len: na.Len, Cap: na.Len})
		}
	}
	panic(Unsup("append to %T with symbolic bounds", c))
}

func (ex *Exec) copyB(st *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []*Outcome {
	dst := args[0].(VSlice)
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	if isByte(et) {
		r := ex.bytesArg(st, args[1])
		return ex.copyBytes(st, dst, r, in)
	}
	src := args[1].(VSlice)
	nd, ok1 := constIdx(dst.Len)
	ns, ok2 := constIdx(src.Len)
	if !ok1 || !ok2 {
		panic(Unsup("copy of unknown length"))
	}
	n := nd
	if ns < n {
		n = ns
	}
	var vs []Val
	for i := 0; i < n; i++ {
		vs = append(vs, ex.loadRaw(st, VPtr{Obj: src.Obj, Path: extPath(src.Path, selOf(Add(src.Off, Int(int64(i)))))}))
	}
	for i := 0; i < n; i++ {
		ex.storeRaw(st, VPtr{Obj: dst.Obj, Path: extPath(dst.Path, selOf(Add(dst.Off, Int(int64(i)))))}, vs[i])
	}
	return ret1(st, Int(int64(n)))
}

// copyBytes copies min(len(dst), len(r)) bytes.
func (ex *Exec) copyBytes(st *State, dst VSlice, r VStr, in ssa.Instruction) []*Outcome {
	if dst.Obj == 0 {
		return ret1(st, Int(0))
	}
	nd, okd := constIdx(dst.Len)
	ns, oks := r.constLen()
	n := Ite(Ult(dst.Len, r.length()), dst.Len, r.length())
	o := st.obj(dst.Obj)
	if o.RO {
		panic(Unsup("copy into element of a symbolic sequence"))
	}
	cont := ex.readPath(st, o.V, dst.Path, nil)
	if okd && nd <= 4096 {
		if off, ok := constIdx(dst.Off); ok {
			if _, isArr := cont.(*VArr); isArr {
				for i := 0; i < nd; i++ {
					if oks && i >= ns {
						break
					}
					p := VPtr{Obj: dst.Obj, Path: extPath(dst.Path, Sel{I: off + i})}
					var nv *Term
					if oks {
						nv = r.bytes()[i]
					} else {
						nv = ropeByte(r, Int(int64(i)))
						in := Ult(Int(int64(i)), r.length())
						if !st.has(in) && in != True {
							nv = Ite(in, nv, ex.loadRaw(st, p).(*Term))
						}
					}
					ex.storeRaw(st, p, nv)
				}
				return ret1(st, n)
			}
		}
	}
	// symbolic extent: splice the rope
	var cur VStr
	switch x := cont.(type) {
	case VRopeBuf:
		cur = ex.normRope(st, x.S)
	case *VArr:
		bs := make([]*Term, len(x.E))
		for i := range bs {
			bs[i] = x.E[i].(*Term)
		}
		cur = ropeBytes(bs)
	case VSymArr:
		if len(x.Arr) != 1 {
			panic(Unsup("copy into %T", cont))
		}
		cur = VStr{[]Seg{{A: App("strof", StrSort, x.Arr[0], Int(0), x.Len)}}}
	default:
		panic(Unsup("copy into %T", cont))
	}
	if n != r.length() && !ex.feasible(st, Not(Eq(n, r.length()))) {
		n = r.length()
	}
	end := Add(dst.Off, n)
	if end != cur.length() && !ex.feasible(st, Not(Eq(end, cur.length()))) {
		end = cur.length()
	}
	src := r
	if n != r.length() {
		src = ropeSub(r, Int(0), n)
	}
	nr := ex.normRope(st, ropeCat(ropeSub(cur, Int(0), dst.Off), src, ropeSub(cur, end, cur.length())))
	ex.storeRaw(st, VPtr{Obj: dst.Obj, Path: dst.Path}, ropeContent(nr))
	return ret1(st, n)
}

// guard: the object (or part of it) may be touched only while the lock is held.
type guard struct {
	p    VPtr
	lock string
	name string
}

// guardAccess obliges that the lock of guarded memory is held, exclusively for changes;
// accesses made by the contract files themselves are not those of the program.
func (ex *Exec) guardAccess(st *State, addr ssa.Value, p VPtr, write bool, in ssa.Instruction) {
	for _, g := range st.guards {
		if g.p.Obj != p.Obj {
			continue
		}
		over := true
		for i, s := range g.p.Path {
			if i >= len(p.Path) {
				break
			}
			if s.T == nil && p.Path[i].T == nil && s.I != p.Path[i].I {
				over = false
			}
		}
		if !over {
			continue
		}
		if f := in.Parent(); f != nil && !strings.HasPrefix(f.Name(), "stub_") && f.Signature.Recv() == nil && ex.contractFiles[ex.prog.Fset.Position(f.Pos()).Filename] {
			continue
		}
		l := st.locks[g.lock]
		kind := "read"
		ok := l != 0
		if write {
			kind = "changed"
			ok = l == -1
		}
		ex.oblige(st, g.name+" "+kind+" under its lock", ex.posIn(in), BoolT(ok))
	}
}

// ---- package initialisation

func (ex *Exec) runInit(p *ssa.Package) {
	if ex.initDone[p] {
		return
	}
	ex.initDone[p] = true
	for _, imp := range p.Pkg.Imports() {
		if ip := ex.pkgs[imp.Path()]; ip != nil && strings.HasPrefix(imp.Path(), modPath) {
			ex.runInit(ip)
		}
	}
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	om := ex.muteVC
	ex.muteVC = true
	defer func() { ex.muteVC = om }()
	info := ex.info(fn)
	fr := &Frame{fn: fn, info: info}
	b := &BState{st: newState(), env: make([]Val, info.n), iter: map[*ssa.BasicBlock]int{}}
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			ex.initInstr(fr, b, in)
		}
	}
	for id, o := range b.st.heap {
		n := *o
		n.Global = true
		if n.Input == "" {
			n.Input = sprintf("%s#%d", p.Pkg.Name(), id)
		}
		globalHeap[id] = &n
	}
}

func (ex *Exec) initInstr(fr *Frame, b *BState, in ssa.Instruction) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := in.(ssa.Value); ok {
				if i, ok := fr.info.idx[v]; ok {
					b.env[i] = VPoison{sprintf("%v", r)}
				}
			}
		}
	}()
	switch x := in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.Phi, *ssa.RunDefers:
		return
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Synthetic != "" {
			return
		}
		fv, args := ex.callArgs(fr, b, &x.Call)
		outs := ex.doCall(fr, b, &x.Call, fv, args, in)
		if len(outs) != 1 {
			panic(Unsup("init call forks"))
		}
		b.st = outs[0].St
		if len(outs[0].Ret) == 1 {
			b.env[fr.info.idx[x]] = outs[0].Ret[0]
		} else {
			b.env[fr.info.idx[x]] = VTuple(outs[0].Ret)
		}
	case *ssa.Store:
		if v := ex.eval(fr, b, x.Val); v != nil {
			if _, bad := v.(VPoison); bad {
				if g, ok := x.Addr.(*ssa.Global); ok {
					b.st.setObj(ex.globalObj(g), VOpaque{Name: g.String(), T: g.Type().(*types.Pointer).Elem()})
				}
				return
			}
		}
		ex.instr(fr, b, in)
	default:
		r := ex.instr(fr, b, in)
		if len(r) == 1 {
			*b = *r[0]
		}
	}
}

func b64Name(enc Val) string {
	if o, ok := enc.(VOpaque); ok {
		switch o.Name {
		case "encoding/base64.StdEncoding":
			return "b64std"
		case "encoding/base64.RawStdEncoding":
			return "b64raw"
		}
	}
	panic(Unsup("base64 encoding %v", enc))
}

// sprintfModel: exact for %s and %v of strings, bytes (%s) and values with a String or Error
// method; otherwise an arbitrary string.
func sprintfModel(ex *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []*Outcome {
	other := func() []*Outcome {
		return ret1(st, VStr{[]Seg{{A: Fresh("Sprintf", StrSort)}}})
	}
	f, ok := args[0].(VStr).constStr()
	if !ok {
		return other()
	}
	vs := func() (v []Val) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		return ex.variadic(st, args[1])
	}()
	var out VStr
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = ropeCat(out, ropeConst(f[i:i+1]))
			continue
		}
		i++
		if i >= len(f) {
			return other()
		}
		if f[i] == '%' {
			out = ropeCat(out, ropeConst("%"))
			continue
		}
		if strings.HasPrefix(f[i:], "02x") && k < len(vs) {
			a, ok := vs[k].(VIface)
			k++
			t, isT := a.V.(*Term)
			if !ok || !isT || t.S != BV(8) || methodOf(ex, a.T, "String") != nil {
				return other()
			}
			i += 2
			digit := func(n *Term) *Term { // of a number below 16
				return Ite(Ult(n, BVI(10, 8)), Add(n, BVI('0', 8)), Add(n, BVI('a'-10, 8)))
			}
			out = ropeCat(out, ropeBytes([]*Term{digit(Lshr(t, BVI(4, 8))), digit(Zext(Extract(t, 3, 0), 8))}))
			continue
		}
		if (f[i] != 's' && f[i] != 'v' && f[i] != 'd') || k >= len(vs) {
			return other()
		}
		a, ok := vs[k].(VIface)
		k++
		if !ok || a.T == nil {
			return other()
		}
		if t, isT := a.V.(*Term); isT && t.S.K == SBV && (f[i] == 'd' || f[i] == 'v' && methodOf(ex, a.T, "String") == nil && methodOf(ex, a.T, "Error") == nil) {
			d, ok := ex.decimal(st, t, isSigned(a.T))
			if !ok {
				return other()
			}
			out = ropeCat(out, d)
			continue
		}
		if f[i] == 'd' {
			return other()
		}
		if m := methodOf(ex, a.T, "String"); m != nil {
			if p, isP := a.V.(VPtr); isP && p.Obj == 0 {
				return other()
			}
			o := ex.call(st, m, []Val{a.V}, nil, in)
			if len(o) != 1 {
				return other()
			}
			st = o[0].St
			out = ropeCat(out, o[0].Ret[0].(VStr))
			continue
		}
		switch v := a.V.(type) {
		case VStr:
			if methodOf(ex, a.T, "Error") != nil {
				return other()
			}
			out = ropeCat(out, v)
		case VSlice:
			if f[i] != 's' || !isByteSlice(a.T) {
				return other()
			}
			out = ropeCat(out, ex.sliceRope(st, v))
		default:
			return other()
		}
	}
	if k != len(vs) {
		return other()
	}
	return ret1(st, ex.normRope(st, out))
}

// decimal is the decimal notation of an integer not known to be negative.
func (ex *Exec) decimal(st *State, t *Term, signed bool) (VStr, bool) {
	if signed {
		if t.IsConst() {
			if t.Val.Bit(t.S.W-1) == 1 {
				return VStr{}, false
			}
		} else if ex.feasible(st, Slt(t, BVI(0, t.S.W))) {
			return VStr{}, false
		}
	}
	return VStr{[]Seg{{A: App("inj$decimal", StrSort, Zext(t, bigW))}}}, true
}

func methodOf(ex *Exec, t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && len(ms.At(i).Index()) == 1 {
			return ex.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}
