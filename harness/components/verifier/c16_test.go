package verifier

import (
	"io/ioutil"
	"math/big"
	"os"
	"testing"
	"time"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
)

func TestVerifC16(t *testing.T) {
	h := vstart(t, 16)
	dir, err := ioutil.TempDir("", "verifzk")
	h.check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	d1, d2 := dir+"/a", dir+"/b"
	_ = os.Mkdir(d1, 0700)
	_ = os.Mkdir(d2, 0700)
	good, bad := h.zk(d1, 2, false), h.zk(d2, 2, true)
	acc := 0
	for h.more(60, 3000) {
		c := newChain()
		id := h.id()
		var st merkletree.Hash
		h.r.Read(st[:31])
		st[30] &= 0x0f
		n, ts := uint64(5+h.r.Intn(3)), vnow+int64(h.r.Intn(5))-3
		c.at[vkey{id, n}] = proof.IdenStateData{BlockTs: ts, BlockN: n, IdenState: hcp(&st)}
		c.last[id] = c.at[vkey{id, n}]
		if h.r.Intn(2) == 0 {
			o := hcp(&st)
			o[3]++
			c.last[id] = proof.IdenStateData{BlockTs: ts + 1, BlockN: n + 1, IdenState: o}
		}
		z := good
		sig := []*big.Int{st.BigInt(), h.scalar()}
		proven := sig
		qn := n
		ok := true
		what := "nothing"
		switch h.r.Intn(12) {
		case 0:
			z, ok, what = bad, false, "key with another digest"
		case 1:
			proven, ok, what = []*big.Int{sig[0], h.scalar()}, false, "proof of other signals"
		case 2:
			qn, ok, what = n+1, false, "other block"
		case 3:
			sig = []*big.Int{h.scalar(), sig[1]}
			proven, ok, what = sig, false, "other state"
		case 4:
			c.failAt[n], ok, what = true, false, "query by block fails"
		case 5:
			c.badLast, what = true, "query of the latest fails"
		case 6:
			d := c.at[vkey{id, n}]
			d.BlockN++
			c.at[vkey{id, n}], ok, what = d, false, "chain answers for another block"
		case 7:
			sig = []*big.Int{new(big.Int).Sub(sig[0], bn256.Order), sig[1]}
			proven, ok, what = sig, false, "negative signal"
		case 8:
			sig = []*big.Int{sig[1], sig[0]}
			proven, ok, what = sig, false, "signals swapped"
		case 9:
			// a record with another content that has the state as a prefix
			d := c.at[vkey{id, n}]
			d.IdenState = hcp(&st)
			d.IdenState[31] ^= 1
			c.at[vkey{id, n}], ok, what = d, false, "record differs in the last byte"
		}
		now := time.Unix(vnow, int64(h.r.Intn(2)*h.r.Intn(1000000000)))
		age := []time.Duration{0, 1, time.Second, 2*time.Second + 1, 1000 * time.Hour}[h.r.Intn(5)]
		h.quiet(func() string { return what }, func() {
			p := z.prove(proven)
			want := ok && oFresh(c, id, st, c.at[vkey{id, n}].BlockTs, age, now)
			err := NewWithTimeNow(c, func() time.Time { return now }).VerifyZkProofCredential(p, sig, &id, qn, z.files, age)
			h.check((err == nil) == want, "zk credential with %s changed, now %v, state at %d, age %v: %v, expected to be accepted: %v", what, now.UnixNano(), ts, int64(age), err, want)
			if want {
				acc++
			}
		})
	}
	h.check(acc > 5, "only %d credentials accepted", acc)
	h.done()
}
