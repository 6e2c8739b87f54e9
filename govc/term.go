package main

// Hash-consed SMT terms with a local simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SU // uninterpreted
	SArr
)

type Sort struct {
	K    SortKind
	W    int
	Name string
	Key  *Sort
	Val  *Sort
	str  string
}

var sortTab = map[string]*Sort{}

func internSort(s Sort) *Sort {
	if x, ok := sortTab[s.str]; ok {
		return x
	}
	p := &s
	sortTab[s.str] = p
	return p
}

var BoolSort = internSort(Sort{K: SBool, str: "Bool"})

func BV(w int) *Sort { return internSort(Sort{K: SBV, W: w, str: fmt.Sprintf("(_ BitVec %d)", w)}) }
func USort(n string) *Sort {
	return internSort(Sort{K: SU, Name: n, str: n})
}
func ArrSort(k, v *Sort) *Sort {
	return internSort(Sort{K: SArr, Key: k, Val: v, str: "(Array " + k.str + " " + v.str + ")"})
}

var StrSort = USort("Str")

func (s *Sort) String() string { return s.str }

type Op int

const (
	OConst Op = iota // BV or Bool constant
	OVar
	OBound
	OApp // uninterpreted function application
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
	OSelect
	OStore
	OConstArr
	OForall
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store"}

type Term struct {
	Op   Op
	S    *Sort
	Args []*Term
	Val  *big.Int // OConst (bool: 0/1)
	Name string   // OVar, OApp, OBound
	Hi   int
	Lo   int
	id   int
	free bool // contains OBound
}

var termTab = map[string]*Term{}
var termCnt int

func mk(t Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s|%d|%d|", t.Op, t.S.str, t.Name, t.Hi, t.Lo)
	if t.Val != nil {
		sb.WriteString(t.Val.Text(16))
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCnt++
	t.id = termCnt
	if t.Op == OBound {
		t.free = true
	}
	for _, a := range t.Args {
		if a.free {
			t.free = true
		}
	}
	p := &t
	termTab[k] = p
	return p
}

var True = mk(Term{Op: OConst, S: BoolSort, Val: big.NewInt(1)})
var False = mk(Term{Op: OConst, S: BoolSort, Val: big.NewInt(0)})

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

var one = big.NewInt(1)

func maskBig(v *big.Int, w int) *big.Int {
	m := new(big.Int).Lsh(one, uint(w))
	r := new(big.Int).Mod(v, m)
	return r
}

func BVC(v *big.Int, w int) *Term {
	return mk(Term{Op: OConst, S: BV(w), Val: maskBig(v, w)})
}
func BVI(v int64, w int) *Term { return BVC(big.NewInt(v), w) }
func BVU(v uint64, w int) *Term {
	return BVC(new(big.Int).SetUint64(v), w)
}
func Int(v int64) *Term { return BVI(v, 64) }

func Var(name string, s *Sort) *Term { return mk(Term{Op: OVar, S: s, Name: name}) }

var freshCnt = map[string]int{}

func Fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	freshCnt[prefix]++
	return Var(fmt.Sprintf("%s!%d", prefix, freshCnt[prefix]), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '$' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func App(name string, s *Sort, args ...*Term) *Term {
	return mk(Term{Op: OApp, S: s, Name: name, Args: args})
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }

func (t *Term) Int64() (int64, bool) {
	if t.Op != OConst {
		return 0, false
	}
	v := signed(t.Val, t.S.W)
	if !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

func signed(v *big.Int, w int) *big.Int {
	if w > 0 && v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(one, uint(w)))
	}
	return v
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == ONot:
		return a.Args[0]
	}
	return mk(Term{Op: ONot, S: BoolSort, Args: []*Term{a}})
}

func andor(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(Term{Op: op, S: BoolSort, Args: out})
}

func And(ts ...*Term) *Term    { return andor(OAnd, True, False, ts) }
func Or(ts ...*Term) *Term     { return andor(OOr, False, True, ts) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s %s", a.S, b.S))
	}
	if a.S == BoolSort {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	return mk(Term{Op: OIte, S: a.S, Args: []*Term{c, a, b}})
}

// concatParts flattens a BV term into concatenation parts, most significant first.
func concatParts(t *Term) []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	if t.Op == OZext {
		return []*Term{BVI(0, t.S.W-t.Args[0].S.W), t.Args[0]}
	}
	return []*Term{t}
}

func isZero(t *Term) bool { return t.Op == OConst && t.Val.Sign() == 0 }

func distinctTerms(a, b *Term) bool {
	// cheap syntactic disequality
	if a.Op == OConst && b.Op == OConst && a != b {
		return true
	}
	if a.S.K == SBV {
		// base + c1 vs base + c2
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb && ca.Cmp(cb) != 0 {
			return true
		}
		if a.Op == OConcat || b.Op == OConcat {
			pa, pb := concatParts(a), concatParts(b)
			i, j := 0, 0
			// compare aligned prefixes / suffixes
			for i < len(pa) && i < len(pb) && pa[i].S == pb[i].S {
				if distinctTerms(pa[i], pb[i]) {
					return true
				}
				i++
			}
			for j < len(pa) && j < len(pb) && pa[len(pa)-1-j].S == pb[len(pb)-1-j].S {
				if distinctTerms(pa[len(pa)-1-j], pb[len(pb)-1-j]) {
					return true
				}
				j++
			}
		}
	}
	if a.Op == OApp && b.Op == OApp && disjointCtors(a.Name, b.Name) {
		return true
	}
	if a.Op == OApp && b.Op == OApp && a.Name == b.Name && isInjective(a.Name) {
		for i := range a.Args {
			if a.Args[i].S == b.Args[i].S && distinctTerms(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

func splitAdd(t *Term) (*Term, *big.Int) {
	if t.Op == OAdd && len(t.Args) == 2 && t.Args[1].Op == OConst {
		return t.Args[0], t.Args[1].Val
	}
	if t.Op == OConst {
		return nil, t.Val
	}
	return t, new(big.Int)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s %s: %s %s", a.S, b.S, a, b))
	}
	if a.S == StrSort && (isRopeCtor(a) || isRopeCtor(b)) {
		return eqRope(ropeOfTerm(a), ropeOfTerm(b))
	}
	if distinctTerms(a, b) {
		return False
	}
	if a.S == BoolSort {
		if a == True {
			return b
		}
		if a == False {
			return Not(b)
		}
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.S.K == SBV && (a.Op == OConcat || b.Op == OConcat || a.Op == OZext || b.Op == OZext) {
		// align parts
		pa, pb := concatParts(a), concatParts(b)
		if len(pa) > 1 || len(pb) > 1 {
			if len(pa) == len(pb) {
				ok := true
				for i := range pa {
					if pa[i].S != pb[i].S {
						ok = false
					}
				}
				if ok {
					var cs []*Term
					for i := range pa {
						cs = append(cs, Eq(pa[i], pb[i]))
					}
					return And(cs...)
				}
			}
			// one is const: split
			if a.Op == OConst || b.Op == OConst {
				c, p := a, pb
				if b.Op == OConst {
					c, p = b, pa
				}
				var cs []*Term
				hi := c.S.W
				for _, x := range p {
					cs = append(cs, Eq(Extract(c, hi-1, hi-x.S.W), x))
					hi -= x.S.W
				}
				return And(cs...)
			}
		}
	}
	if a.S.K == SBV && a.Op == OApp && b.Op == OApp && a.Name == b.Name && isInjective(a.Name) {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// x + c1 = c2
	if a.S.K == SBV {
		if b.Op == OConst {
			a, b = b, a
		}
		if a.Op == OConst {
			if b.Op == OAdd && len(b.Args) == 2 && b.Args[1].Op == OConst {
				return Eq(b.Args[0], Sub(a, b.Args[1]))
			}
			if b.Op == OIte {
				x, y := b.Args[1], b.Args[2]
				if x.Op == OConst || y.Op == OConst {
					return Ite(b.Args[0], Eq(a, x), Eq(a, y))
				}
			}
		}
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba != nil && ba == bb {
			return BoolT(ca.Cmp(cb) == 0)
		}
	}
	if a.Op == OIte && b.Op != OIte && (a.Args[1] == b || a.Args[2] == b || distinctTerms(a.Args[1], b) || distinctTerms(a.Args[2], b)) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == OIte && a.Op != OIte && (b.Args[1] == a || b.Args[2] == a || distinctTerms(b.Args[1], a) || distinctTerms(b.Args[2], a)) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OEq, S: BoolSort, Args: []*Term{a, b}})
}

func bin(op Op, a, b *Term, f func(x, y *big.Int, w int) *big.Int) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("bin sorts %s %s", a.S, b.S))
	}
	if a.Op == OConst && b.Op == OConst {
		return BVC(f(a.Val, b.Val, a.S.W), a.S.W)
	}
	return nil
}

func Add(a, b *Term) *Term {
	if r := bin(OAdd, a, b, func(x, y *big.Int, w int) *big.Int { return new(big.Int).Add(x, y) }); r != nil {
		return r
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if isZero(b) {
		return a
	}
	if b.Op == OConst {
		if a.Op == OAdd && a.Args[1].Op == OConst {
			return Add(a.Args[0], Add(a.Args[1], b))
		}
		return mk(Term{Op: OAdd, S: a.S, Args: []*Term{a, b}})
	}
	// pull constants outwards
	if a.Op == OAdd && a.Args[1].Op == OConst {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == OAdd && b.Args[1].Op == OConst {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	if a.Op == OSub && a.Args[1] == b {
		return a.Args[0]
	}
	if b.Op == OSub && b.Args[1] == a {
		return b.Args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OAdd, S: a.S, Args: []*Term{a, b}})
}

func Sub(a, b *Term) *Term {
	if r := bin(OSub, a, b, func(x, y *big.Int, w int) *big.Int { return new(big.Int).Sub(x, y) }); r != nil {
		return r
	}
	if a == b {
		return BVI(0, a.S.W)
	}
	if b.Op == OConst {
		return Add(a, BVC(new(big.Int).Neg(b.Val), b.S.W))
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba != nil && ba == bb {
		return BVC(new(big.Int).Sub(ca, cb), a.S.W)
	}
	if a.Op == OAdd {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
		if a.Args[1].Op == OConst {
			return Add(Sub(a.Args[0], b), a.Args[1])
		}
	}
	if b.Op == OAdd && b.Args[1].Op == OConst {
		return Add(Sub(a, b.Args[0]), BVC(new(big.Int).Neg(b.Args[1].Val), b.S.W))
	}
	return mk(Term{Op: OSub, S: a.S, Args: []*Term{a, b}})
}

func Mul(a, b *Term) *Term {
	if r := bin(OMul, a, b, func(x, y *big.Int, w int) *big.Int { return new(big.Int).Mul(x, y) }); r != nil {
		return r
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if isZero(b) {
			return b
		}
		if b.Val.Cmp(one) == 0 {
			return a
		}
		if a.Op == OAdd && a.Args[1].Op == OConst {
			return Add(Mul(a.Args[0], b), Mul(a.Args[1], b))
		}
	}
	return mk(Term{Op: OMul, S: a.S, Args: []*Term{a, b}})
}

func UDiv(a, b *Term) *Term {
	if b.Op == OConst && b.Val.Sign() > 0 {
		if a.Op == OConst {
			return BVC(new(big.Int).Div(a.Val, b.Val), a.S.W)
		}
		if k := log2(b.Val); k >= 0 {
			return Lshr(a, BVI(int64(k), a.S.W))
		}
	}
	return mk(Term{Op: OUDiv, S: a.S, Args: []*Term{a, b}})
}
func URem(a, b *Term) *Term {
	if b.Op == OConst && b.Val.Sign() > 0 {
		if a.Op == OConst {
			return BVC(new(big.Int).Mod(a.Val, b.Val), a.S.W)
		}
		if k := log2(b.Val); k == 0 {
			return BVI(0, a.S.W)
		} else if k > 0 {
			return Zext(Extract(a, k-1, 0), a.S.W)
		}
	}
	return mk(Term{Op: OURem, S: a.S, Args: []*Term{a, b}})
}
func SDiv(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && b.Val.Sign() != 0 {
		return BVC(new(big.Int).Quo(signed(a.Val, a.S.W), signed(b.Val, b.S.W)), a.S.W)
	}
	if a.Op == OMul && b.Op == OConst && b.Val.Sign() > 0 && maxU(a).BitLen() < a.S.W-1 {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return mk(Term{Op: OSDiv, S: a.S, Args: []*Term{a, b}})
}
func SRem(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && b.Val.Sign() != 0 {
		return BVC(new(big.Int).Rem(signed(a.Val, a.S.W), signed(b.Val, b.S.W)), a.S.W)
	}
	return mk(Term{Op: OSRem, S: a.S, Args: []*Term{a, b}})
}

func log2(v *big.Int) int {
	if v.Sign() <= 0 {
		return -1
	}
	k := v.BitLen() - 1
	if new(big.Int).Lsh(one, uint(k)).Cmp(v) == 0 {
		return k
	}
	return -1
}

func allOnes(t *Term) bool {
	return t.Op == OConst && t.Val.Cmp(new(big.Int).Sub(new(big.Int).Lsh(one, uint(t.S.W)), one)) == 0
}

// constSegs splits a constant into runs of 0s and 1s, for mask decomposition. hi..lo runs, most significant first.
type bitRun struct {
	hi, lo int
	bit    uint
}

func runs(t *Term) []bitRun {
	w := t.S.W
	var rs []bitRun
	i := w - 1
	for i >= 0 {
		b := t.Val.Bit(i)
		j := i
		for j-1 >= 0 && t.Val.Bit(j-1) == b {
			j--
		}
		rs = append(rs, bitRun{i, j, b})
		i = j - 1
	}
	return rs
}

func BAnd(a, b *Term) *Term {
	if r := bin(OBAnd, a, b, func(x, y *big.Int, w int) *big.Int { return new(big.Int).And(x, y) }); r != nil {
		return r
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.Op == OConst {
		if isZero(b) {
			return b
		}
		if allOnes(b) {
			return a
		}
		rs := runs(b)
		if len(rs) <= 5 {
			var parts []*Term
			for _, r := range rs {
				if r.bit == 0 {
					parts = append(parts, BVI(0, r.hi-r.lo+1))
				} else {
					parts = append(parts, Extract(a, r.hi, r.lo))
				}
			}
			return Concat(parts...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OBAnd, S: a.S, Args: []*Term{a, b}})
}

func alignParts(a, b *Term) (pa, pb []*Term) {
	qa, qb := append([]*Term{}, concatParts(a)...), append([]*Term{}, concatParts(b)...)
	for len(qa) > 0 && len(qb) > 0 {
		x, y := qa[0], qb[0]
		if x.S.W == y.S.W {
			pa, pb = append(pa, x), append(pb, y)
			qa, qb = qa[1:], qb[1:]
		} else if x.S.W > y.S.W {
			pa, pb = append(pa, Extract(x, x.S.W-1, x.S.W-y.S.W)), append(pb, y)
			qa[0] = Extract(x, x.S.W-y.S.W-1, 0)
			qb = qb[1:]
		} else {
			pa, pb = append(pa, x), append(pb, Extract(y, y.S.W-1, y.S.W-x.S.W))
			qb[0] = Extract(y, y.S.W-x.S.W-1, 0)
			qa = qa[1:]
		}
	}
	return
}

func BOr(a, b *Term) *Term {
	if r := bin(OBOr, a, b, func(x, y *big.Int, w int) *big.Int { return new(big.Int).Or(x, y) }); r != nil {
		return r
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a == b || isZero(b) {
		return a
	}
	if isZero(a) {
		return b
	}
	if allOnes(b) {
		return b
	}
	if b.Op == OConst || a.Op == OConcat || b.Op == OConcat || a.Op == OZext || b.Op == OZext {
		if b.Op == OConst && a.Op != OConcat && a.Op != OZext {
			rs := runs(b)
			if len(rs) <= 5 && len(rs) > 1 {
				var parts []*Term
				for _, r := range rs {
					if r.bit == 0 {
						parts = append(parts, Extract(a, r.hi, r.lo))
					} else {
						parts = append(parts, Extract(b, r.hi, r.lo))
					}
				}
				return Concat(parts...)
			}
		} else {
			pa, pb := alignParts(a, b)
			if len(pa) > 1 {
				ok := true
				for i := range pa {
					if !(isZero(pa[i]) || isZero(pb[i]) || (pa[i].Op == OConst && pb[i].Op == OConst)) {
						ok = false
					}
				}
				if ok {
					var parts []*Term
					for i := range pa {
						parts = append(parts, BOr(pa[i], pb[i]))
					}
					return Concat(parts...)
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OBOr, S: a.S, Args: []*Term{a, b}})
}

func BXor(a, b *Term) *Term {
	if r := bin(OBXor, a, b, func(x, y *big.Int, w int) *big.Int { return new(big.Int).Xor(x, y) }); r != nil {
		return r
	}
	if a == b {
		return BVI(0, a.S.W)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if allOnes(b) {
		return BNot(a)
	}
	if allOnes(a) {
		return BNot(b)
	}
	return mk(Term{Op: OBXor, S: a.S, Args: []*Term{a, b}})
}

func BNot(a *Term) *Term {
	if a.Op == OConst {
		return BVC(new(big.Int).Not(a.Val), a.S.W)
	}
	if a.Op == OBNot {
		return a.Args[0]
	}
	return mk(Term{Op: OBNot, S: a.S, Args: []*Term{a}})
}
func Neg(a *Term) *Term { return Sub(BVI(0, a.S.W), a) }

func Shl(a, b *Term) *Term {
	if b.Op == OConst {
		w := a.S.W
		if !b.Val.IsInt64() || b.Val.Int64() >= int64(w) {
			return BVI(0, w)
		}
		k := int(b.Val.Int64())
		if k == 0 {
			return a
		}
		return Concat(Extract(a, w-1-k, 0), BVI(0, k))
	}
	if isZero(a) {
		return a
	}
	return mk(Term{Op: OShl, S: a.S, Args: []*Term{a, b}})
}
func Lshr(a, b *Term) *Term {
	if b.Op == OConst {
		w := a.S.W
		if !b.Val.IsInt64() || b.Val.Int64() >= int64(w) {
			return BVI(0, w)
		}
		k := int(b.Val.Int64())
		if k == 0 {
			return a
		}
		return Zext(Extract(a, w-1, k), w)
	}
	if isZero(a) {
		return a
	}
	return mk(Term{Op: OLshr, S: a.S, Args: []*Term{a, b}})
}
func Ashr(a, b *Term) *Term {
	if b.Op == OConst {
		w := a.S.W
		if !b.Val.IsInt64() || b.Val.Int64() >= int64(w) {
			b = BVI(int64(w-1), w)
		}
		k := int(b.Val.Int64())
		if k == 0 {
			return a
		}
		return Sext(Extract(a, w-1, k), w)
	}
	return mk(Term{Op: OAshr, S: a.S, Args: []*Term{a, b}})
}

func Ult(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return BoolT(a.Val.Cmp(b.Val) < 0)
	}
	if a == b || isZero(b) || allOnes(a) {
		return False
	}
	if b.Op == OConst && b.Val.Cmp(one) == 0 {
		return Eq(a, BVI(0, a.S.W))
	}
	if isZero(a) {
		return Not(Eq(b, a))
	}
	if b.Op == OConst {
		if m := maxU(a); m.Cmp(b.Val) < 0 {
			return True
		}
	}
	if a.Op == OConst {
		if m := maxU(b); m.Cmp(a.Val) <= 0 {
			return False
		}
	}
	return mk(Term{Op: OUlt, S: BoolSort, Args: []*Term{a, b}})
}

// maxU: upper bound of unsigned value
func maxU(t *Term) *big.Int {
	full := new(big.Int).Sub(new(big.Int).Lsh(one, uint(t.S.W)), one)
	switch t.Op {
	case OConst:
		return t.Val
	case OZext:
		return maxU(t.Args[0])
	case OApp:
		if t.Name == "strlen" {
			return new(big.Int).Lsh(one, 40)
		}
	case OConcat:
		r := new(big.Int)
		for _, p := range t.Args {
			r.Lsh(r, uint(p.S.W))
			r.Or(r, maxU(p))
		}
		return r
	case OIte:
		a, b := maxU(t.Args[1]), maxU(t.Args[2])
		if a.Cmp(b) > 0 {
			return a
		}
		return b
	case OAdd:
		r := new(big.Int).Add(maxU(t.Args[0]), maxU(t.Args[1]))
		if r.Cmp(full) > 0 {
			return full
		}
		return r
	case OMul:
		r := new(big.Int).Mul(maxU(t.Args[0]), maxU(t.Args[1]))
		if r.Cmp(full) > 0 {
			return full
		}
		return r
	}
	return full
}

func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }
func Slt(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return BoolT(signed(a.Val, a.S.W).Cmp(signed(b.Val, b.S.W)) < 0)
	}
	if a == b {
		return False
	}
	w := a.S.W
	half := new(big.Int).Lsh(one, uint(w-1))
	if maxU(a).Cmp(half) < 0 && maxU(b).Cmp(half) < 0 {
		return Ult(a, b)
	}
	return mk(Term{Op: OSlt, S: BoolSort, Args: []*Term{a, b}})
}
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

func Concat(ts ...*Term) *Term {
	var ps []*Term
	for _, t := range ts {
		if t.S.W == 0 {
			continue
		}
		for _, p := range concatParts(t) {
			if n := len(ps); n > 0 {
				l := ps[n-1]
				if l.Op == OConst && p.Op == OConst {
					v := new(big.Int).Lsh(l.Val, uint(p.S.W))
					v.Or(v, p.Val)
					ps[n-1] = BVC(v, l.S.W+p.S.W)
					continue
				}
				if m := mergeExtract(l, p); m != nil {
					ps[n-1] = m
					continue
				}
			}
			ps = append(ps, p)
		}
	}
	if len(ps) == 1 {
		return ps[0]
	}
	w := 0
	for _, p := range ps {
		w += p.S.W
	}
	return mk(Term{Op: OConcat, S: BV(w), Args: ps})
}

func mergeExtract(l, p *Term) *Term {
	if l.Op == OExtract && p.Op == OExtract && l.Args[0] == p.Args[0] && l.Lo == p.Hi+1 {
		return Extract(l.Args[0], l.Hi, p.Lo)
	}
	if l.Op == OIte && p.Op == OIte && l.Args[0] == p.Args[0] {
		// ite merging of aligned pieces
		a := Concat(l.Args[1], p.Args[1])
		b := Concat(l.Args[2], p.Args[2])
		if a.Op != OConcat && b.Op != OConcat {
			return Ite(l.Args[0], a, b)
		}
	}
	return nil
}

func Extract(t *Term, hi, lo int) *Term {
	w := t.S.W
	if lo == 0 && hi == w-1 {
		return t
	}
	if hi < lo {
		return mk(Term{Op: OConst, S: BV(0), Val: new(big.Int)})
	}
	switch t.Op {
	case OConst:
		return BVC(new(big.Int).Rsh(t.Val, uint(lo)), hi-lo+1)
	case OExtract:
		return Extract(t.Args[0], hi+t.Lo, lo+t.Lo)
	case OConcat:
		var parts []*Term
		top := w
		for _, p := range t.Args {
			pl, ph := top-p.S.W, top-1
			top = pl
			h, l := hi, lo
			if h > ph {
				h = ph
			}
			if l < pl {
				l = pl
			}
			if h >= l {
				parts = append(parts, Extract(p, h-pl, l-pl))
			}
		}
		return Concat(parts...)
	case OZext:
		a := t.Args[0]
		aw := a.S.W
		if hi < aw {
			return Extract(a, hi, lo)
		}
		if lo >= aw {
			return BVI(0, hi-lo+1)
		}
		return Concat(BVI(0, hi-aw+1), Extract(a, aw-1, lo))
	case OSext:
		if hi < t.Args[0].S.W {
			return Extract(t.Args[0], hi, lo)
		}
	case OIte:
		return Ite(t.Args[0], Extract(t.Args[1], hi, lo), Extract(t.Args[2], hi, lo))
	case OBAnd:
		return BAnd(Extract(t.Args[0], hi, lo), Extract(t.Args[1], hi, lo))
	case OBOr:
		return BOr(Extract(t.Args[0], hi, lo), Extract(t.Args[1], hi, lo))
	case OBXor:
		return BXor(Extract(t.Args[0], hi, lo), Extract(t.Args[1], hi, lo))
	case OBNot:
		return BNot(Extract(t.Args[0], hi, lo))
	case OAdd:
		if lo == 0 {
			return Add(Extract(t.Args[0], hi, 0), Extract(t.Args[1], hi, 0))
		}
	}
	return mk(Term{Op: OExtract, S: BV(hi - lo + 1), Args: []*Term{t}, Hi: hi, Lo: lo})
}

func Zext(t *Term, w int) *Term {
	if t.S.W == w {
		return t
	}
	if t.S.W > w {
		return Extract(t, w-1, 0)
	}
	return Concat(BVI(0, w-t.S.W), t)
}
func Sext(t *Term, w int) *Term {
	if t.S.W == w {
		return t
	}
	if t.S.W > w {
		return Extract(t, w-1, 0)
	}
	if t.Op == OConst {
		return BVC(signed(t.Val, t.S.W), w)
	}
	half := new(big.Int).Lsh(one, uint(t.S.W-1))
	if maxU(t).Cmp(half) < 0 {
		return Zext(t, w)
	}
	return mk(Term{Op: OSext, S: BV(w), Args: []*Term{t}})
}

func Select(a, i *Term) *Term {
	for {
		if a.Op == OStore {
			k := a.Args[1]
			if k == i {
				return a.Args[2]
			}
			if e := Eq(k, i); e == True {
				return a.Args[2]
			} else if e == False {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == OConstArr {
			return a.Args[0]
		}
		if a.Op == OIte {
			return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		}
		break
	}
	if a.Op == OApp && a.Name == "bytesof" {
		// a byte of a literal
		if l := a.Args[0]; l.Op == OApp && len(l.Args) == 1 && len(l.Name) > 4 && l.Name[:4] == "lit$" {
			if c, ok := constIdx(i); ok && c >= 0 && 8*c < l.Args[0].S.W {
				return Extract(l.Args[0], 8*c+7, 8*c)
			}
		}
	}
	return mk(Term{Op: OSelect, S: a.S.Val, Args: []*Term{a, i}})
}
func Store(a, i, v *Term) *Term {
	if a.S.Val != v.S || a.S.Key != i.S {
		panic(fmt.Sprintf("store sorts %s [%s] %s", a.S, i.S, v.S))
	}
	if a.Op == OStore && a.Args[1] == i {
		a = a.Args[0]
	}
	if a.Op == OConstArr && a.Args[0] == v {
		return a
	}
	return mk(Term{Op: OStore, S: a.S, Args: []*Term{a, i, v}})
}
func ConstArr(s *Sort, v *Term) *Term {
	return mk(Term{Op: OConstArr, S: s, Args: []*Term{v}})
}

func Bound(name string, s *Sort) *Term { return mk(Term{Op: OBound, S: s, Name: name}) }
func Forall(v *Term, body *Term, pats ...*Term) *Term {
	if !body.free {
		return body
	}
	if body == True {
		return True
	}
	t := mk(Term{Op: OForall, S: BoolSort, Args: append([]*Term{v, body}, pats...)})
	// free-ness: approximates; nested quantifiers get distinct names
	t.free = containsOtherBound(body, v)
	return t
}

func containsOtherBound(t, v *Term) bool {
	if !t.free {
		return false
	}
	if t.Op == OBound {
		return t != v
	}
	args := t.Args
	if t.Op == OForall {
		args = t.Args[1:2]
	}
	for _, a := range args {
		if t.Op == OForall && !t.free {
			continue
		}
		if containsOtherBound(a, v) {
			return true
		}
	}
	return false
}

// constructors for string ropes: injectivity / disjointness
func isInjective(n string) bool {
	return strings.HasPrefix(n, "lit$") || strings.HasPrefix(n, "inj$") || injUF[n]
}

var injUF = map[string]bool{}

func disjointCtors(a, b string) bool {
	return a != b && strings.HasPrefix(a, "lit$") && strings.HasPrefix(b, "lit$")
}

func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OAdd:
		return Add(a[0], a[1])
	case OSub:
		return Sub(a[0], a[1])
	case OMul:
		return Mul(a[0], a[1])
	case OUDiv:
		return UDiv(a[0], a[1])
	case OURem:
		return URem(a[0], a[1])
	case OSDiv:
		return SDiv(a[0], a[1])
	case OSRem:
		return SRem(a[0], a[1])
	case OBAnd:
		return BAnd(a[0], a[1])
	case OBOr:
		return BOr(a[0], a[1])
	case OBXor:
		return BXor(a[0], a[1])
	case OBNot:
		return BNot(a[0])
	case OShl:
		return Shl(a[0], a[1])
	case OLshr:
		return Lshr(a[0], a[1])
	case OAshr:
		return Ashr(a[0], a[1])
	case OUlt:
		return Ult(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OConcat:
		return Concat(a...)
	case OExtract:
		return Extract(a[0], t.Hi, t.Lo)
	case OZext:
		return Zext(a[0], t.S.W)
	case OSext:
		return Sext(a[0], t.S.W)
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(t.S, a[0])
	case OApp:
		return App(t.Name, t.S, a...)
	case OForall:
		return Forall(a[0], a[1], a[2:]...)
	}
	panic("rebuild")
}

// ---- printing

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func constStr(t *Term) string {
	if t.S == BoolSort {
		if t == True {
			return "true"
		}
		return "false"
	}
	if t.S.W%4 == 0 {
		s := t.Val.Text(16)
		return "#x" + strings.Repeat("0", t.S.W/4-len(s)) + s
	}
	s := t.Val.Text(2)
	return "#b" + strings.Repeat("0", t.S.W-len(s)) + s
}

func smtName(n string) string {
	return "|" + n + "|"
}

func printTerm(t *Term, names map[*Term]string) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	}
	return printNode(t, func(a *Term) string { return printTerm(a, names) })
}

func printNode(t *Term, p func(*Term) string) string {
	switch t.Op {
	case OConst:
		return constStr(t)
	case OVar, OBound:
		return smtName(t.Name)
	case OApp:
		if len(t.Args) == 0 {
			return smtName(t.Name)
		}
		var sb strings.Builder
		sb.WriteString("(" + smtName(t.Name))
		for _, a := range t.Args {
			sb.WriteString(" " + p(a))
		}
		sb.WriteString(")")
		return sb.String()
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.Hi, t.Lo, p(t.Args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.Args[0].S.W, p(t.Args[0]))
	case OConstArr:
		return fmt.Sprintf("((as const %s) %s)", t.S, p(t.Args[0]))
	case OConcat:
		s := p(t.Args[0])
		for _, a := range t.Args[1:] {
			s = "(concat " + s + " " + p(a) + ")"
		}
		return s
	case OForall:
		b := p(t.Args[1])
		if len(t.Args) > 2 {
			b = "(! " + b
			for _, a := range t.Args[2:] {
				b += " :pattern (" + p(a) + ")"
			}
			b += ")"
		}
		return fmt.Sprintf("(forall ((%s %s)) %s)", smtName(t.Args[0].Name), t.Args[0].S, b)
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.Op])
	for _, a := range t.Args {
		sb.WriteString(" " + p(a))
	}
	sb.WriteString(")")
	return sb.String()
}

// walkTerms visits every subterm once.
func walkTerms(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			w(a)
		}
		f(t)
	}
	for _, t := range ts {
		w(t)
	}
}

func isRopeCtor(t *Term) bool {
	return t.Op == OApp && (t.Name == "cat" || strings.HasPrefix(t.Name, "lit$"))
}
