package issuer

import (
	"testing"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/genesis"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func TestVerifC13(t *testing.T) {
	h := vstart(t, 113)
	for h.more(20, 300) {
		var sk babyjub.PrivateKey
		h.r.Read(sk[:])
		comp := sk.Public().Compress()
		n := h.r.Intn(5)
		var extra []claims.Claimer
		var same []merkletree.Entrier
		for i := 0; i < n; i++ {
			var is [claims.IndexSlotLen]byte
			var vs [claims.ValueSlotLen]byte
			h.r.Read(is[:])
			h.r.Read(vs[:])
			extra = append(extra, claims.NewClaimBasic(is, vs))
		}
		cfg := ConfigDefault
		cfg.GenesisOnly = h.r.Intn(2) == 0
		h.quiet(func() string { return "create" }, func() {
			id, err := Create(cfg, &comp, extra, db.NewMemoryStorage(), nil)
			h.check(err == nil, "create: %v", err)
			// the claims now carry their nonces
			for _, c := range extra {
				same = append(same, c)
			}
			k := claims.NewClaimKeyBabyJub(sk.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
			k.Metadata().RevNonce = 0
			want, err := genesis.CalculateIdGenesis(k, same)
			h.check(err == nil && *want == *id, "created %v, calculated %v from the same %d claims (%v)", id, want, n, err)
		})
	}
	h.done()
}
