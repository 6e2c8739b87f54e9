package local

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
)

// Groth16 proofs made with a known trapdoor
type vzk struct {
	h          *vh
	a, b, g, d *big.Int
	ic         []*big.Int
	vk         *zktypes.Vk
}

func (h *vh) scalar() *big.Int {
	x := new(big.Int).Rand(h.r, bn256.Order)
	if x.Sign() == 0 {
		x.SetInt64(1)
	}
	return x
}

func (h *vh) zk(n int) *vzk {
	z := &vzk{h: h, a: h.scalar(), b: h.scalar(), g: h.scalar(), d: h.scalar()}
	g1 := func(x *big.Int) *bn256.G1 { return new(bn256.G1).ScalarBaseMult(x) }
	g2 := func(x *big.Int) *bn256.G2 { return new(bn256.G2).ScalarBaseMult(x) }
	z.vk = &zktypes.Vk{Alpha: g1(z.a), Beta: g2(z.b), Gamma: g2(z.g), Delta: g2(z.d)}
	for i := 0; i <= n; i++ {
		x := h.scalar()
		z.ic = append(z.ic, x)
		z.vk.IC = append(z.vk.IC, g1(x))
	}
	return z
}

func (z *vzk) prove(id *core.ID, old, new_ *merkletree.Hash) *zktypes.Proof {
	le := func(b []byte) *big.Int {
		r := make([]byte, len(b))
		for i := range b {
			r[len(b)-1-i] = b[i]
		}
		return new(big.Int).SetBytes(r)
	}
	q := bn256.Order
	vk := new(big.Int).Set(z.ic[0])
	for i, s := range []*big.Int{le(id[:]), le(old[:]), le(new_[:])} {
		vk.Add(vk, new(big.Int).Mul(z.ic[i+1], s))
	}
	x, y := z.h.scalar(), z.h.scalar()
	c := new(big.Int).Mul(x, y)
	c.Sub(c, new(big.Int).Mul(z.a, z.b))
	c.Sub(c, new(big.Int).Mul(vk, z.g))
	c.Mul(c, new(big.Int).ModInverse(z.d, q))
	c.Mod(c, q)
	return &zktypes.Proof{A: new(bn256.G1).ScalarBaseMult(x), B: new(bn256.G2).ScalarBaseMult(y), C: new(bn256.G1).ScalarBaseMult(c)}
}

type rec struct {
	n  uint64
	ts int64
	st merkletree.Hash
}

type wait struct {
	id int
	r  rec
}

// histories of first states, updates, synchronisations and queries against a plain record
func TestVerifC28(t *testing.T) {
	h := vstart(t, 28)
	z := h.zk(3)
	for h.more(10, 5000) {
		block, now := uint64(h.r.Intn(1000)), int64(h.r.Intn(1000000))
		c := New(func() time.Time { return time.Unix(now, 0) }, func() uint64 { return block }, z.vk)
		var ids [3]core.ID
		for i := range ids {
			h.r.Read(ids[i][:])
		}
		var on [3][]rec
		var pi, ps []wait
		log := ""
		state := func() *merkletree.Hash {
			var s merkletree.Hash
			h.r.Read(s[:31])
			return &s
		}
		refused := func(i int, old, st *merkletree.Hash) *zktypes.Proof { // not a proof of that transition
			switch h.r.Intn(4) {
			case 0:
				return z.prove(&ids[(i+1)%3], old, st)
			case 1:
				return z.prove(&ids[i], state(), st)
			case 2:
				return z.prove(&ids[i], old, state())
			}
			p := z.prove(&ids[i], old, st)
			p.C = new(bn256.G1).ScalarBaseMult(h.scalar())
			return p
		}
		for k := 0; k < 25; k++ {
			i := h.r.Intn(3)
			switch op := h.r.Intn(10); op {
			case 0, 1: // a first state
				g, st := state(), state()
				good := h.r.Intn(3) > 0
				p := z.prove(&ids[i], g, st)
				if !good {
					p = refused(i, g, st)
				}
				id := ids[i]
				_, err := c.InitState(&id, g, st, p)
				log += fmt.Sprintf(" init(%d,%v)@%d=%v", i, good, block, err == nil)
				h.check((err == nil) == (good && on[i] == nil), "first state of %d: %v;%s", i, err, log)
				if err == nil {
					pi = append(pi, wait{i, rec{block, now, *st}})
				}
			case 2, 3, 4: // an update
				old, st := state(), state()
				if on[i] != nil {
					*old = on[i][len(on[i])-1].st
					if h.r.Intn(6) == 0 && len(on[i]) > 1 {
						*old = on[i][len(on[i])-2].st
					}
				}
				good := h.r.Intn(3) > 0
				p := z.prove(&ids[i], old, st)
				if !good {
					p = refused(i, old, st)
				}
				good = good && on[i] != nil && *old == on[i][len(on[i])-1].st
				id := ids[i]
				_, err := c.SetState(&id, st, p)
				log += fmt.Sprintf(" set(%d,%v)@%d=%v", i, good, block, err == nil)
				h.check((err == nil) == good, "update of %d: %v;%s", i, err, log)
				h.check(on[i] != nil || err == idenpubonchain.ErrIdenNotOnChain, "update of %d: %v;%s", i, err, log)
				if err == nil {
					ps = append(ps, wait{i, rec{block, now, *st}})
				}
			case 5:
				c.Sync()
				log += " sync"
				for _, w := range pi {
					on[w.id] = []rec{w.r}
				}
				for _, w := range ps {
					on[w.id] = append(on[w.id], w.r)
				}
				pi, ps = nil, nil
			case 6:
				block += uint64(h.r.Intn(3))
				now += int64(h.r.Intn(3))
			default:
				h.queries(c, ids, on, log)
			}
		}
		h.sample("%s", log)
	}
	h.done()
}

func (h *vh) queries(c *IdenPubOnChain, ids [3]core.ID, on [3][]rec, log string) {
	eq := func(d *proof.IdenStateData, r rec) bool {
		return d.BlockN == r.n && d.BlockTs == r.ts && *d.IdenState == r.st
	}
	for i := range ids {
		d, err := c.GetState(&ids[i])
		h.check((err == nil) == (on[i] != nil) && (err == nil || err == idenpubonchain.ErrIdenNotOnChain), "state of %d: %v;%s", i, err, log)
		_, errb := c.GetStateByBlock(&ids[i], 5000)
		_, errt := c.GetStateByTime(&ids[i], -5)
		if on[i] == nil {
			h.check(errb == idenpubonchain.ErrIdenNotOnChain && errt == idenpubonchain.ErrIdenNotOnChain, "state of %d: %v %v;%s", i, errb, errt, log)
			continue
		}
		h.check(errb == idenpubonchain.ErrIdenByBlockNotFound && errt == idenpubonchain.ErrIdenByTimeNotFound, "state of %d: %v %v;%s", i, errb, errt, log)
		h.check(eq(d, on[i][len(on[i])-1]), "another state of %d;%s", i, log)
		byN, byT := map[uint64]rec{}, map[int64]rec{}
		for _, r := range on[i] {
			byN[r.n], byT[r.ts] = r, r
		}
		for n, r := range byN {
			d, err := c.GetStateByBlock(&ids[i], n)
			h.check(err == nil && eq(d, r), "state of %d at block %d: %v;%s", i, n, err, log)
			if _, ok := byN[n+1]; !ok {
				_, err = c.GetStateByBlock(&ids[i], n+1)
				h.check(err == idenpubonchain.ErrIdenByBlockNotFound, "state of %d at block %d: %v;%s", i, n+1, err, log)
			}
		}
		for n, r := range byT {
			d, err := c.GetStateByTime(&ids[i], n)
			h.check(err == nil && eq(d, r), "state of %d at time %d: %v;%s", i, n, err, log)
			if _, ok := byT[n-1]; !ok {
				_, err = c.GetStateByTime(&ids[i], n-1)
				h.check(err == idenpubonchain.ErrIdenByTimeNotFound, "state of %d at time %d: %v;%s", i, n-1, err, log)
			}
		}
	}
}
