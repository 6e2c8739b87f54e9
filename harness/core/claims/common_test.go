package claims

import (
	"math/big"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

var refQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func refInt(b []byte) *big.Int {
	r := new(big.Int)
	for i := len(b) - 1; i >= 0; i-- {
		r.Lsh(r, 8)
		r.Or(r, big.NewInt(int64(b[i])))
	}
	return r
}

func inField(d merkletree.Data) bool {
	for _, e := range d {
		if refInt(e[:]).Cmp(refQ) >= 0 {
			return false
		}
	}
	return true
}

func (h *vh) id() *core.ID {
	var g [27]byte
	copy(g[:], h.bytes(27))
	var ty [2]byte
	copy(ty[:], h.bytes(2))
	id := core.NewID(ty, g)
	if h.r.Intn(4) == 0 { // any 31 bytes can be a subject
		copy(id[:], h.bytes(31))
	}
	return &id
}

var vkeys []*babyjub.PublicKey

func (h *vh) key() *babyjub.PublicKey {
	if len(vkeys) == 0 {
		for i := 0; i < 4; i++ {
			k := babyjub.NewRandPrivKey()
			vkeys = append(vkeys, k.Public())
		}
	}
	if h.r.Intn(2) == 0 {
		return vkeys[h.r.Intn(len(vkeys))]
	}
	n := func() *big.Int {
		x := new(big.Int).Mod(refInt(h.bytes(32)), refQ)
		return x.Rsh(x, uint(h.r.Intn(2)*8*h.r.Intn(32)))
	}
	return &babyjub.PublicKey{X: n(), Y: n()}
}

// anyData is any entry data, biased to known types and flags
func (h *vh) anyData() (d merkletree.Data) {
	for i := range d {
		copy(d[i][:], h.bytes(32))
		if h.r.Intn(8) > 0 {
			d[i][31] &= 0x1f
		}
	}
	if h.r.Intn(3) > 0 {
		copy(d[0][:8], []byte{0, 0, 0, 0, 0, 0, 0, byte(h.r.Intn(4))})
	}
	return
}
