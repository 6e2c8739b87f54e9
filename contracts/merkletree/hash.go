package merkletree

import (
	"math/big"

	v "github.com/iden3/go-iden3-core/zzverif"
	"github.com/iden3/go-iden3-crypto/constants"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

// the number an element stands for: least significant byte first
func specInt(e [32]byte) *big.Int {
	var b [32]byte
	for i := 0; i < 32; i++ {
		b[31-i] = e[i]
	}
	return new(big.Int).SetBytes(b[:])
}

func specElem(x *big.Int) (e [32]byte) {
	var b [32]byte
	x.FillBytes(b[:])
	for i := 0; i < 32; i++ {
		e[i] = b[31-i]
	}
	return
}

func specInField(e [32]byte) bool { return specInt(e).Cmp(constants.Q) < 0 }

func specDataInField(d Data) bool {
	r := true
	for i := 0; i < 8; i++ {
		r = r && specInField(d[i])
	}
	return r
}

// the hash of six elements; only meaningful when all are in the field
func specH(a, b, c, d, e, f [32]byte) Hash {
	h, err := poseidon.PoseidonHash([6]*big.Int{specInt(a), specInt(b), specInt(c), specInt(d), specInt(e), specInt(f)})
	if err != nil {
		return Hash{}
	}
	return Hash(specElem(h))
}

func specH4(d Data, o int) Hash {
	var z [32]byte
	return specH(d[o], d[o+1], d[o+2], d[o+3], z, z)
}

func specHi(d Data) Hash { return specH4(d, 0) }
func specHv(d Data) Hash { return specH4(d, 4) }

func specLeaf(hi, hv Hash) Hash {
	var z, one [32]byte
	one[0] = 1
	return specH([32]byte(hi), [32]byte(hv), one, z, z, z)
}

func specMid(l, r Hash) Hash {
	var z [32]byte
	return specH([32]byte(l), [32]byte(r), z, z, z, z)
}

//verif:contract prop=C08,C07 target=ElemBytes.BigInt use
func vc_ElemBigInt(e *ElemBytes) {
	r := e.BigInt()
	v.Ensures("first byte is the least significant", r != nil && r.Cmp(specInt(*e)) == 0)
}

//verif:contract prop=C08,C07 target=NewElemBytesFromBigInt use
func vc_NewElemBytes(x *big.Int) {
	e := NewElemBytesFromBigInt(x)
	v.Ensures("first byte is the least significant", e == ElemBytes(specElem(x)))
}

//verif:contract prop=C08
func vc_ElemRoundTrip(e ElemBytes) {
	r := NewElemBytesFromBigInt(e.BigInt())
	v.Ensures("bytes to number and back", r == e)
}

//verif:contract prop=C08
func vc_IntRoundTrip(x *big.Int) {
	e := NewElemBytesFromBigInt(x)
	v.Ensures("number to bytes and back", e.BigInt().Cmp(x) == 0)
	h := NewHashFromBigInt(x)
	v.Ensures("hash to number and back", h.BigInt().Cmp(x) == 0)
}

//verif:contract prop=C07 target=CheckEntryInField use
func vc_CheckEntryInField(e Entry) {
	r := CheckEntryInField(e)
	v.Ensures("refused exactly when some element is not below the field order", r == specDataInField(e.Data))
}

//verif:contract prop=C07 target=HashElems
func vc_HashElems4(a, b, c, d ElemBytes) {
	h, err := HashElems(a, b, c, d)
	in := specInField(a) && specInField(b) && specInField(c) && specInField(d)
	v.Ensures("elements outside the field are refused, others hashed", (err == nil) == in)
	v.Ensures("hash or error", (err == nil) == (h != nil))
	if err == nil {
		var z [32]byte
		v.Ensures("the hash of the elements padded with zeros", *h == specH(a, b, c, d, z, z))
	}
}

//verif:contract prop=C07 target=HashElems
func vc_HashElems2(a, b ElemBytes) {
	h, err := HashElems(a, b)
	v.Ensures("elements outside the field are refused, others hashed", (err == nil) == (specInField(a) && specInField(b)))
	if err == nil {
		v.Ensures("the hash of the elements padded with zeros", *h == specMid(Hash(a), Hash(b)))
	}
}

//verif:contract prop=C07 target=LeafKey use
func vc_LeafKey(hi, hv *Hash) {
	k, err := LeafKey(hi, hv)
	v.Ensures("refused exactly outside the field", (err == nil) == (specInField(*hi) && specInField(*hv)))
	v.Ensures("key or error", (err == nil) == (k != nil))
	if err == nil {
		v.Ensures("the hash of index hash, value hash and one", *k == specLeaf(*hi, *hv))
	}
}

//verif:contract prop=C07 target=Entry.HIndex
func vc_HIndex(d Data) {
	e := &Entry{Data: d}
	h, err := e.HIndex()
	in := specInField(d[0]) && specInField(d[1]) && specInField(d[2]) && specInField(d[3])
	v.Ensures("refused exactly when an index element is outside the field", (err == nil) == in)
	if err == nil {
		v.Ensures("the hash of the first four elements", *h == specHi(d))
		h2, err2 := e.HIndex()
		v.Ensures("asked again, the same hash", err2 == nil && *h2 == specHi(d))
	}
	v.Ensures("the data is unchanged", e.Data == d)
}

//verif:contract prop=C07 target=Entry.HValue
func vc_HValue(d Data) {
	e := &Entry{Data: d}
	h, err := e.HValue()
	in := specInField(d[4]) && specInField(d[5]) && specInField(d[6]) && specInField(d[7])
	v.Ensures("refused exactly when a value element is outside the field", (err == nil) == in)
	if err == nil {
		v.Ensures("the hash of the last four elements", *h == specHv(d))
		h2, err2 := e.HValue()
		v.Ensures("asked again, the same hash", err2 == nil && *h2 == specHv(d))
	}
	v.Ensures("the data is unchanged", e.Data == d)
}

//verif:contract prop=C07 target=Entry.HiHv
func vc_HiHv(d Data) {
	e := &Entry{Data: d}
	hi, hv, err := e.HiHv()
	v.Ensures("refused exactly outside the field", (err == nil) == specDataInField(d))
	if err == nil {
		v.Ensures("index and value hash", *hi == specHi(d) && *hv == specHv(d))
	}
}

//verif:contract prop=C07 target=Node.Key
func vc_KeyLeaf(d Data) {
	n := NewNodeLeaf(&Entry{Data: d})
	k, err := n.Key()
	v.Ensures("refused exactly outside the field", (err == nil) == specDataInField(d))
	if err == nil {
		v.Ensures("leaf key", *k == specLeaf(specHi(d), specHv(d)))
		k2, err2 := n.Key()
		v.Ensures("asked again, the same key", err2 == nil && *k2 == *k)
	}
}

//verif:contract prop=C07 target=Node.Key
func vc_KeyMiddle(l, r Hash) {
	n := NewNodeMiddle(&l, &r)
	k, err := n.Key()
	v.Ensures("refused exactly outside the field", (err == nil) == (specInField(l) && specInField(r)))
	if err == nil {
		v.Ensures("middle key", *k == specMid(l, r))
		k2, err2 := n.Key()
		v.Ensures("asked again, the same key", err2 == nil && *k2 == *k)
	}
}

//verif:contract prop=C07 target=Node.Key
func vc_KeyEmpty() {
	k, err := NewNodeEmpty().Key()
	v.Ensures("the empty node has key zero", err == nil && *k == Hash{})
}

// for contracts of other packages
func SpecDataInField(d Data) bool     { return specDataInField(d) }
func SpecInField(e [32]byte) bool     { return specInField(e) }
func SpecInt(e [32]byte) *big.Int     { return specInt(e) }
func SpecElem(x *big.Int) [32]byte    { return specElem(x) }
func SpecHi(d Data) Hash              { return specHi(d) }
func SpecHv(d Data) Hash              { return specHv(d) }
func SpecLeaf(hi, hv Hash) Hash       { return specLeaf(hi, hv) }
func SpecH6(a, b, c, d, e, f Hash) Hash {
	return specH([32]byte(a), [32]byte(b), [32]byte(c), [32]byte(d), [32]byte(e), [32]byte(f))
}
