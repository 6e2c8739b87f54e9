package merkletree

import (
	"bytes"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestVerifC01(t *testing.T) {
	h := vstart(t, 1)
	pool := h.pool(160)
	for h.more(40, 20000) {
		n := h.r.Intn(8)
		if h.r.Intn(6) == 0 {
			n = h.r.Intn(40)
		}
		max := h.levels()
		es := h.pick(pool, n)
		desc := func() string { return "entries " + descSet(es) }
		h.quiet(desc, func() {
			st := db.NewMemoryStorage()
			mt, in := h.tree(st, max, es)
			// the current root, or an earlier one
			k := len(in)
			if h.r.Intn(2) == 0 && k > 0 {
				k = h.r.Intn(k + 1)
			}
			set := in[:k]
			root := Hash(refRoot(set, 0))
			qs := append(append([]refEntry{}, in...), h.pick(pool, 4)...)
			for _, q := range qs {
				if h.r.Intn(3) == 0 {
					continue
				}
				if h.r.Intn(4) == 0 { // an index that differs from a stored one late in its path
					q.hi[h.r.Intn(31)] ^= 1 << uint(h.r.Intn(8))
					q.hv = [32]byte{}
				}
				hi, hv := Hash(q.hi), Hash(q.hv)
				var rk *Hash = &root
				if k == len(in) && h.r.Intn(2) == 0 {
					rk = nil
				}
				what := func() string {
					return "tree of " + descSet(set) + " (later " + descSet(in[k:]) + ") index " + hx(hi[:])
				}
				p, err := mt.GenerateProof(&hi, rk)
				h.check(err == nil, "%s: %v", what(), err)
				want, found := refPath(set, q.hi)
				h.check(p.Existence == (found != nil), "%s: existence %v", what(), p.Existence)
				h.check(bytes.Equal(p.Bytes(), want.bytes()), "%s: proof %x, want %x", what(), p.Bytes(), want.bytes())
				h.check(VerifyProof(&root, p, &hi, &hv), "%s: proof %x does not verify", what(), p.Bytes())
				r, err := RootFromProof(p, &hi, &hv)
				h.check(err == nil && *r == root, "%s: proof %x leads to another root", what(), p.Bytes())
				o := root
				o[h.r.Intn(32)] ^= 4
				h.check(!VerifyProof(&o, p, &hi, &hv), "%s: proof verifies against another root %x", what(), o[:])
				if k > 0 {
					o = Hash(refRoot(set[:k-1], 0))
					h.check(!VerifyProof(&o, p, &hi, &hv), "%s: proof verifies against the earlier root %x", what(), o[:])
				}
				if p.Existence {
					o = hv
					o[h.r.Intn(31)] ^= 1
					h.check(!VerifyProof(&root, p, &hi, &o), "%s: proof verifies for another value %x", what(), o[:])
					o = hi
					o[h.r.Intn(31)] ^= 1
					h.check(!VerifyProof(&root, p, &o, &hv), "%s: proof verifies for another index %x", what(), o[:])
				} else if p.NodeAux != nil {
					h.check(!VerifyProof(&root, p, p.NodeAux.HIndex, p.NodeAux.HValue), "%s: non-existence verifies for the neighbouring leaf itself", what())
					h.check(!VerifyProof(&root, p, p.NodeAux.HIndex, &hv), "%s: non-existence verifies for the neighbouring leaf itself", what())
				}
			}
			h.sample("%d levels, %s", max, desc())
		})
	}
	h.done()
}
