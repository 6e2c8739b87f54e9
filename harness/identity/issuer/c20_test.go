package issuer

import (
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

type ventry struct{ e merkletree.Entry }

func (v ventry) Entry() *merkletree.Entry { return v.e.Clone() }

func TestVerifC20(t *testing.T) {
	h := vstart(t, 120)
	for h.more(6, 150) {
		cfg := ConfigDefault
		cfg.ConfirmBlocks = 0
		var e *venv
		h.quiet(func() string { return "create" }, func() { e = venvNew(h, cfg, nil) })
		e.conf = 9
		var data []merkletree.Data      // issued
		onchain := 0                    // how many of them are in the on-chain state
		var atState []int               // how many at each recorded state
		inState := 0
		revoked := map[uint32]bool{}
		for i := 0; i < 16; i++ {
			op := h.r.Intn(8)
			e.trail += fmt.Sprintf(" %d", op)
			h.quiet(func() string { return e.trail }, func() {
				switch op {
				case 0, 1:
					c := e.claim()
					h.check(e.is.IssueClaim(c) == nil, "issue; %s", e.trail)
					data = append(data, c.Entry().Data)
				case 2:
					if e.publish() == nil && e.calls == 1 {
						inState = len(data)
						atState = append(atState, inState)
					}
				case 3:
					e.mine()
					_, _, _, on0, _, _, _ := e.stored()
					e.is.SyncIdenStatePublic()
					_, _, _, on, _, _, _ := e.stored()
					if on != on0 {
						onchain = inState
					}
				case 4, 5, 6:
					d, k := e.pick(data)
					c, err := e.is.GenCredentialExistence(ventry{merkletree.Entry{Data: d}})
					_, _, _, on, _, _, _ := e.stored()
					switch {
					case on == merkletree.Hash{}:
						h.check(err == ErrIdenStateOnChainZero, "credential without a state on chain: %v; %s", err, e.trail)
					case k >= 0 && k < onchain:
						h.check(err == nil, "claim %d of %d on chain: %v; %s", k, onchain, err, e.trail)
						h.check(c.Claim.Data == d && *c.Id == *e.id && *c.IdenStateData.IdenState == on && c.IdenStateData.BlockN == e.is.StateDataOnChain().BlockN &&
							c.IdenStateData.BlockTs == e.is.StateDataOnChain().BlockTs && c.IdenPubUrl == e.Url(), "credential %+v of %x under %v; %s", c, d, &on, e.trail)
						tx, _ := e.plain.NewTx()
						var roots IdenStateTreeRoots
						h.check(db.NewStorageList(dbPrefixIdenStateList).Get(tx, on[:], &roots) == nil, "roots; %s", e.trail)
						h.check(c.RevocationsTreeRoot.Equals(roots.RevocationsTreeRoot) && c.RootsTreeRoot.Equals(roots.RootsTreeRoot), "roots of another state; %s", e.trail)
						ent := &merkletree.Entry{Data: d}
						hi, hv, _ := ent.HiHv()
						h.check(c.MtpClaim.Existence && merkletree.VerifyProof(roots.ClaimsTreeRoot, c.MtpClaim, hi, hv), "the proof does not verify; %s", e.trail)
					case k >= 0:
						h.check(err == ErrClaimNotYetInOnChainState, "claim %d of %d on chain: %v; %s", k, onchain, err, e.trail)
					default:
						h.check(err == ErrClaimNotFoundClaimsTree, "unknown or altered claim: %v (%v); %s", err, c, e.trail)
					}
				case 7:
					d, k := e.pick(data)
					idx := false
					own := d
					for _, x := range data {
						if x[0] == d[0] && x[1] == d[1] && x[2] == d[2] && x[3] == d[3] {
							idx, own = true, x
						}
					}
					_ = k
					nonce := uint32(own[4][0]) | uint32(own[4][1])<<8 | uint32(own[4][2])<<16 | uint32(own[4][3])<<24
					want, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
					h.check(err == nil, "tree")
					before := *e.is.revocationsTree.RootKey()
					err = e.is.RevokeClaim(ventry{merkletree.Entry{Data: d}})
					if !idx || revoked[nonce] {
						h.check(err != nil && *e.is.revocationsTree.RootKey() == before, "revoked a claim never issued, or twice: %v; %s", err, e.trail)
						return
					}
					h.check(err == nil, "revoke: %v; %s", err, e.trail)
					revoked[nonce] = true
					for n := range revoked {
						h.check(claims.AddLeafRevocationsTree(want, n, 0xffffffff) == nil, "leaf")
					}
					h.check(want.RootKey().Equals(e.is.revocationsTree.RootKey()), "revoked nonces are not %v; %s", revoked, e.trail)
				}
			})
		}
		h.sample("%s", e.trail)
	}
	h.done()
}

// pick gives an issued claim with its position, or an altered or unknown one
func (e *venv) pick(data []merkletree.Data) (merkletree.Data, int) {
	if len(data) == 0 || e.h.r.Intn(4) == 0 {
		return e.claim().Entry().Data, -1
	}
	k := e.h.r.Intn(len(data))
	d := data[k]
	if e.h.r.Intn(3) == 0 {
		// another value, or another nonce
		if e.h.r.Intn(2) == 0 {
			d[6][3]++
		} else {
			d[4][0]++
		}
		return d, -1
	}
	return d, k
}
