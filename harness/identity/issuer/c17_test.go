package issuer

import (
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
)

// a source of nonces over restarts and failures; claims get theirs from it
func TestVerifC17(t *testing.T) {
	h := vstart(t, 117)
	for h.more(10, 200) {
		f := &vfault{r: h.r}
		st := &vstore{db.NewMemoryStorage(), f}
		g := NewUniqueNonceGen(db.NewStorageValue([]byte("nonce")))
		tx, _ := st.NewTx()
		g.Init(tx)
		start := uint32(0)
		if h.r.Intn(2) == 0 {
			// close to the end of the space
			start = 0xffffffff - uint32(h.r.Intn(6))
			db.NewStorageValue([]byte("nonce")).Set(tx, start)
		}
		h.check(tx.Commit() == nil, "commit")
		seen := map[uint32]bool{}
		next := start
		trail := fmt.Sprintf("start %d:", start)
		for i := 0; i < 12; i++ {
			f.p = h.r.Intn(2) * 4
			h.quiet(func() string { return trail }, func() {
				tx, err := st.NewTx()
				if err != nil {
					return
				}
				n, err := g.Next(tx)
				if err != nil {
					trail += " error"
					h.check(f.p > 0 || next == 0xffffffff, "error %v at %d; %s", err, next, trail)
					return
				}
				h.check(next != 0xffffffff, "wrapped around; %s", trail)
				h.check(!seen[n], "nonce %d handed out again; %s", n, trail)
				if tx.Commit() != nil {
					trail += " uncommitted"
					return
				}
				seen[n] = true
				next++
				trail += fmt.Sprintf(" %d", n)
			})
			if h.r.Intn(3) == 0 {
				g = NewUniqueNonceGen(db.NewStorageValue([]byte("nonce")))
				trail += " restart"
			}
		}
		h.sample("%s", trail)
	}
	// through the issuer
	for h.more(13, 230) {
		cfg := ConfigDefault
		var extra []claims.Claimer
		e := &venv{h: h}
		for i := 0; i < h.r.Intn(3); i++ {
			extra = append(extra, e.claim())
		}
		h.quiet(func() string { return "create" }, func() { e = venvNew(h, cfg, extra) })
		seen := map[uint32]bool{0: true}
		for _, c := range extra {
			n := c.Metadata().RevNonce
			h.check(!seen[n], "nonce %d given twice at creation", n)
			seen[n] = true
		}
		var issued []*claims.ClaimBasic
		for i := 0; i < 10; i++ {
			c := e.claim()
			if len(issued) > 0 && h.r.Intn(4) == 0 {
				// an index that is there
				old := issued[h.r.Intn(len(issued))]
				c = claims.NewClaimBasic(old.IndexSlot, c.ValueSlot)
			}
			c.Metadata().RevNonce = 77777 + uint32(i)
			before := *c.Metadata()
			root := *e.is.claimsTree.RootKey()
			e.f.p = h.r.Intn(2) * 6
			var err error
			h.quiet(func() string { return e.trail }, func() { err = e.is.IssueClaim(c) })
			e.f.p = 0
			now := *e.is.claimsTree.RootKey()
			e.trail += fmt.Sprintf(" issue(%v)", err)
			if err != nil {
				h.check(*c.Metadata() == before, "a claim that was not issued has changed metadata; %s", e.trail)
				h.check(now == root, "a claim that was not issued is in the tree; %s", e.trail)
			} else {
				n := c.Metadata().RevNonce
				h.check(!seen[n], "nonce %d given twice; %s", n, e.trail)
				seen[n] = true
				issued = append(issued, c)
			}
			if h.r.Intn(3) == 0 {
				e.frozen = true
				l, err := Load(e.st, e.ks, e, vzk(t), e)
				e.frozen = false
				h.check(err == nil, "load: %v", err)
				e.is = l
				e.trail += " restart"
			}
		}
	}
	h.done()
}
