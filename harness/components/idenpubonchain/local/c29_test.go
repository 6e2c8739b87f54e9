package local

import (
	"math/big"
	"math/rand"
	"sync/atomic"
	"testing"
	"time"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
)

// all operations at once, most transitions without a valid proof
func TestVerifC29(t *testing.T) {
	h := vstart(t, 29)
	one := big.NewInt(1)
	g1 := func(n int64) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(big.NewInt(n)) }
	g2 := new(bn256.G2).ScalarBaseMult(one)
	// all signals have no weight: A*B = alpha*beta + ic*gamma + C*delta
	vk := &zktypes.Vk{Alpha: g1(1), Beta: g2, Gamma: g2, Delta: g2, IC: []*bn256.G1{g1(1), g1(0), g1(0), g1(0)}}
	good := &zktypes.Proof{A: g1(5), B: g2, C: g1(3)}
	bad := &zktypes.Proof{A: g1(5), B: g2, C: g1(4)}
	for h.more(2, 200) {
		var n int64
		c := New(func() time.Time { return time.Unix(atomic.LoadInt64(&n), 0) }, func() uint64 { return uint64(atomic.AddInt64(&n, 1)) }, vk)
		h.together("chain", 5, 12, func(r *rand.Rand, w, _ int) {
			id, st := core.ID{byte(r.Intn(4))}, merkletree.Hash{byte(r.Intn(100))}
			p := good
			if r.Intn(3) == 0 {
				p = bad
			}
			switch r.Intn(6) {
			case 0:
				_, err := c.InitState(&id, &merkletree.Hash{}, &st, p)
				h.check(err != nil || p == good, "accepted without a valid proof")
			case 1:
				_, err := c.SetState(&id, &st, p)
				h.check(err != nil || p == good, "accepted without a valid proof")
			case 2:
				c.Sync()
			case 3:
				d, err := c.GetState(&id)
				h.check(err != nil || d != nil, "no state")
			case 4:
				c.GetStateByBlock(&id, uint64(r.Intn(20))) //nolint:errcheck
			case 5:
				c.GetStateByTime(&id, int64(r.Intn(20))) //nolint:errcheck
			}
		})
		h.within("chain afterwards", func() { c.Sync() })
		h.sample("5 callers, 12 calls each")
	}
	h.done()
}
