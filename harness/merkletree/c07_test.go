package merkletree

import (
	"math/big"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestVerifC07(t *testing.T) {
	h := vstart(t, 7)
	for h.more(200, 20000) {
		var d Data
		in, inI, inV := true, true, true
		for i := range d {
			switch h.r.Intn(10) {
			case 0:
				d[i] = refBytes(new(big.Int).Sub(refQ, big.NewInt(int64(1+h.r.Intn(3)))))
			case 1, 2, 3:
			default:
				d[i] = h.elem()
			}
		}
		if h.r.Intn(2) == 0 {
			i := h.r.Intn(8)
			switch h.r.Intn(3) {
			case 0:
				d[i] = refBytes(refQ)
			case 1:
				d[i] = refBytes(new(big.Int).Add(refQ, big.NewInt(int64(h.r.Intn(300)))))
			default:
				copy(d[i][:], h.bytes(32))
				d[i][31] |= 0x80
			}
		}
		for i := range d {
			if refInt(d[i][:]).Cmp(refQ) >= 0 {
				in = false
				if i < 4 {
					inI = false
				} else {
					inV = false
				}
			}
		}
		db0 := d.Bytes()
		h.quiet(func() string { return "entry " + hx(db0[:]) }, func() {
			e := &Entry{Data: d}
			h.check(CheckEntryInField(*e) == in, "CheckEntryInField is %v for %x", !in, db0)
			hi, err := e.HIndex()
			h.check((err == nil) == inI, "index hash of %x: error %v", db0, err)
			hv, err := e.HValue()
			h.check((err == nil) == inV, "value hash of %x: error %v", db0, err)
			if inI {
				w, _ := refHi(d)
				h.check(*hi == w, "index hash of %x is %x, not %x", db0, *hi, w)
			}
			if inV {
				w, _ := refHv(d)
				h.check(*hv == w, "value hash of %x is %x, not %x", db0, *hv, w)
			}
			if in {
				re := refNewEntry(d)
				k, err := LeafKey(hi, hv)
				h.check(err == nil && *k == re.lk, "leaf key of %x is %v, not %x", db0, k, re.lk)
				k, err = NewNodeLeaf(&Entry{Data: d}).Key()
				h.check(err == nil && *k == re.lk, "leaf key of %x is %v, not %x", db0, k, re.lk)
			} else {
				_, err := NewNodeLeaf(&Entry{Data: d}).Key()
				h.check(err != nil, "leaf with out-of-field entry %x has a key", db0)
			}
			// sequences of elements
			n := h.r.Intn(7)
			var es []ElemBytes
			var is []*big.Int
			ok := true
			for i := 0; i < n; i++ {
				es = append(es, d[(i+h.n)%8])
				is = append(is, refInt(es[i][:]))
				ok = ok && is[i].Cmp(refQ) < 0
			}
			k, err := HashElems(es...)
			h.check((err == nil) == ok, "HashElems(%x) error %v", es, err)
			if ok {
				w, _ := refH(is...)
				h.check(*k == w, "HashElems(%x) = %x, not %x", es, *k, w)
			}
			if n < 6 {
				k, err = HashElemsKey(big.NewInt(7), es...)
				h.check((err == nil) == ok, "HashElemsKey(7, %x) error %v", es, err)
				if ok {
					w, _ := refH(append(is, big.NewInt(7))...)
					h.check(*k == w, "HashElemsKey(7, %x) = %x, not %x", es, *k, w)
				}
			}
			mt, err := NewMerkleTree(db.NewMemoryStorage(), 140)
			h.check(err == nil, "new tree: %v", err)
			err = mt.AddEntry(&Entry{Data: d})
			h.check((err == nil) == in, "adding entry %x: error %v", db0, err)
			h.check(in || *mt.RootKey() == HashZero, "refused entry %x changed the root", db0)
		})
		h.sample("entry data %x", db0)
	}
	h.done()
}
