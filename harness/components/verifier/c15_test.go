package verifier

import (
	"testing"
	"time"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
)

func TestVerifC15(t *testing.T) {
	h := vstart(t, 15)
	acc, rej := 0, map[string]int{}
	for h.more(400, 20000) {
		c := newChain()
		id := h.id()
		t1 := h.trees()
		ce := h.credE(c, id, t1, 10, 1000)
		t2 := t1
		n2 := uint64(10)
		ts2 := int64(1000)
		if h.r.Intn(3) > 0 {
			t2 = h.trees(t1.claims...)
			n2 = 11
			ts2 = vnow + int64(h.r.Intn(7)) - 5
			c.put(id, t2, n2, ts2)
		}
		nonce := claims.GetRevocationNonce(ce.Claim)
		leaf := claims.NewLeafRevocationsTree(nonce, 0xffffffff).Entry()
		if h.r.Intn(4) == 0 {
			_ = t2.re.AddEntry(&merkletree.Entry{Data: leaf.Data})
			c.put(id, t2, n2, ts2)
			if t2 == t1 {
				ce.IdenStateData.IdenState, ce.RevocationsTreeRoot = t1.state(), hcp(t1.re.RootKey())
			}
		}
		cv := &proof.CredentialValidity{CredentialExistence: *ce, IdenStateData: *cp(c.at[vkey{id, n2}]), MtpNotNonce: h.gen(t2.re, leaf), ClaimsTreeRoot: hcp(t2.cl.RootKey()), RootsTreeRoot: hcp(t2.ro.RootKey())}
		if h.r.Intn(3) == 0 {
			t3 := h.trees()
			c.put(id, t3, 12, vnow)
		}
		what := "nothing"
		for i := h.r.Intn(4); i > 1; i-- {
			switch h.r.Intn(12) {
			case 0:
				what += ", " + h.tamperE(c, &cv.CredentialExistence, t1)
			case 1:
				cv.IdenStateData.BlockN--
				what += ", validity block"
			case 2:
				cv.IdenStateData.BlockTs++
				what += ", validity time"
			case 3:
				cv.IdenStateData.IdenState = h.hash()
				what += ", validity state"
			case 4:
				cv.ClaimsTreeRoot = h.hash()
				what += ", claims root"
			case 5:
				cv.RootsTreeRoot = h.hash()
				what += ", roots root"
			case 6:
				cv.ClaimsTreeRoot, cv.RootsTreeRoot = cv.RootsTreeRoot, cv.ClaimsTreeRoot
				what += ", roots swapped"
			case 7:
				c.failAt[n2] = true
				what += ", query by block fails"
			case 8:
				c.badLast = true
				what += ", query of the latest fails"
			case 9:
				p := *cv.MtpNotNonce
				p.Existence = !p.Existence
				p.NodeAux = nil
				cv.MtpNotNonce = &p
				what += ", kind of the revocation proof"
			case 10:
				cv.MtpNotNonce = h.gen(t2.re, claims.NewLeafRevocationsTree(h.r.Uint32(), 0xffffffff).Entry())
				what += ", proof for another nonce"
			case 11:
				k := vkey{id, n2}
				if d, ok := c.at[k]; ok {
					d.BlockTs += 3
					c.at[k] = d
				}
				what += ", chain records another time"
			}
		}
		now := time.Unix(vnow, int64(h.r.Intn(2)*h.r.Intn(1000000000)))
		age := []time.Duration{0, 1, time.Second, 2 * time.Second, 2*time.Second + 1, 1000 * time.Hour, 1 << 62}[h.r.Intn(7)]
		if h.r.Intn(3) == 0 {
			age = now.Sub(time.Unix(ts2, 0))
			if age < 0 {
				age = 0
			}
		}
		h.quiet(func() string { return what }, func() {
			want := oValid(c, cv, age, now)
			err := NewWithTimeNow(c, func() time.Time { return now }).VerifyCredentialValidity(cv, age)
			h.check((err == nil) == want, "validity credential with %s changed, now %v, state at %d, age %v, expires %x: %v, expected to be accepted: %v",
				what, now.UnixNano(), cv.IdenStateData.BlockTs, int64(age), cv.CredentialExistence.Claim.Data[4][4:12], err, want)
			if want {
				acc++
			} else {
				rej[what]++
			}
		})
	}
	h.check(acc > 20, "only %d credentials accepted", acc)
	h.done()
}
