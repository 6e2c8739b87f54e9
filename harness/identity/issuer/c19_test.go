package issuer

import (
	"testing"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func TestVerifC19(t *testing.T) {
	vstates(t, 119, func(e *venv) {
		e.synced(e.is)
		_, _, pending, on, _, n, sent := e.stored()
		if n == 1 {
			e.h.check(pending == merkletree.Hash{} && !sent && on == merkletree.Hash{}, "a fresh issuer has pending %v, on chain %v", &pending, &on)
		}
	})
	// creation and loading with any configuration and key
	h := vstart(t, 219)
	for h.more(20, 200) {
		var sk babyjub.PrivateKey
		h.r.Read(sk[:])
		comp := sk.Public().Compress()
		cfg := Config{MaxLevelsClaimsTree: 100 + h.r.Intn(100), MaxLevelsRevocationTree: 100 + h.r.Intn(100), MaxLevelsRootsTree: 100 + h.r.Intn(100),
			GenesisOnly: h.r.Intn(2) == 0, ConfirmBlocks: h.r.Uint64()}
		st := db.NewMemoryStorage()
		e := &venv{h: h, f: &vfault{r: h.r}, plain: st, st: st, frozen: true}
		var extra []claims.Claimer
		for i := 0; i < h.r.Intn(3); i++ {
			extra = append(extra, e.claim())
		}
		h.quiet(func() string { return "create and load" }, func() {
			id, err := Create(cfg, &comp, extra, st, nil)
			h.check(err == nil, "create: %v", err)
			e.id = id
			is, err := Load(st, nil, e, vzk(t), e)
			h.check(err == nil, "load: %v", err)
			h.check(*is.ID() == *id && *is.KeyOperational() == comp && is.cfg == cfg, "created %v %v %v, loaded %v %v %v", id, comp, cfg, is.ID(), is.KeyOperational(), is.cfg)
			p, sent := is.IdenStatePending()
			h.check(*p == merkletree.HashZero && !sent && *is.StateDataOnChain().IdenState == merkletree.HashZero, "a fresh issuer has pending %v on chain %v", p, is.StateDataOnChain())
			h.check(is.claimsTree.MaxLevels() == cfg.MaxLevelsClaimsTree && is.revocationsTree.MaxLevels() == cfg.MaxLevelsRevocationTree && is.rootsTree.MaxLevels() == cfg.MaxLevelsRootsTree, "levels of the trees")
			e.synced(is)
		})
	}
	h.done()
}
