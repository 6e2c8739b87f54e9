package genesis

import (
	"math/big"
	"testing"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

func (h *vh) hashOf(xs ...*merkletree.Hash) *merkletree.Hash {
	var in [poseidon.T]*big.Int
	for i := range in {
		in[i] = big.NewInt(0)
		if i < len(xs) {
			b := make([]byte, 32)
			for k := range b {
				b[k] = xs[i][31-k]
			}
			in[i].SetBytes(b)
		}
	}
	r, err := poseidon.PoseidonHash(in)
	h.check(err == nil, "hash: %v", err)
	var o merkletree.Hash
	b := r.Bytes()
	for k := range b {
		o[k] = b[len(b)-1-k]
	}
	return &o
}

func (h *vh) tree() *merkletree.MerkleTree {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	h.check(err == nil, "%v", err)
	return mt
}

func TestVerifC13(t *testing.T) {
	h := vstart(t, 13)
	for h.more(25, 600) {
		var sk babyjub.PrivateKey
		h.r.Read(sk[:])
		k := claims.NewClaimKeyBabyJub(sk.Public(), claims.BabyJubKeyType(h.r.Intn(3)))
		k.Metadata().RevNonce = h.r.Uint32()
		var extra []merkletree.Entrier
		clt, rot := h.tree(), h.tree()
		dup := false
		h.check(clt.AddEntry(&merkletree.Entry{Data: k.Entry().Data}) == nil, "key claim")
		for i := h.r.Intn(5); i > 0; i-- {
			var is [claims.IndexSlotLen]byte
			var vs [claims.ValueSlotLen]byte
			is[0] = byte(h.r.Intn(8))
			vs[5] = byte(h.r.Intn(256))
			c := claims.NewClaimBasic(is, vs)
			extra = append(extra, c)
			if clt.AddEntry(&merkletree.Entry{Data: c.Entry().Data}) != nil {
				dup = true
			}
		}
		h.check(rot.AddEntry(&merkletree.Entry{Data: merkletree.Data{merkletree.ElemBytes(*clt.RootKey())}}) == nil, "roots leaf")
		st := h.hashOf(clt.RootKey(), &merkletree.HashZero, rot.RootKey())
		var g [27]byte
		copy(g[:], st[5:])
		want := core.NewID([2]byte{0, 0}, g)
		h.quiet(func() string { return "genesis" }, func() {
			id, err := CalculateIdGenesis(k, extra)
			if dup {
				h.check(err != nil, "two claims with the same index accepted")
				return
			}
			h.check(err == nil && *id == want, "identifier %v of %d extra claims, expected %v (%v)", id, len(extra), want, err)
			c2, r2 := h.tree(), h.tree()
			id, err = CalculateIdGenesisMT(c2, r2, k, extra)
			h.check(err == nil && *id == want, "identifier in given trees %v, expected %v (%v)", id, want, err)
			h.check(*c2.RootKey() == *clt.RootKey() && *r2.RootKey() == *rot.RootKey(), "given trees do not hold exactly the claims and their root")
			s := core.IdenState(clt.RootKey(), rot.RootKey(), c2.RootKey())
			h.check(*s == *h.hashOf(clt.RootKey(), rot.RootKey(), c2.RootKey()), "state %v of three different roots", s)
		})
	}
	h.done()
}
