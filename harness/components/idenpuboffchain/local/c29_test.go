package local

import (
	"math/rand"
	"testing"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
)

// all operations at once
func TestVerifC29(t *testing.T) {
	h := vstart(t, 291)
	for h.more(10, 500) {
		s := NewIdenPubOffChain("u")
		h.together("off-chain store", 5, 100, func(r *rand.Rand, w, _ int) {
			id, st := core.ID{byte(r.Intn(4))}, merkletree.Hash{byte(r.Intn(4))}
			switch r.Intn(4) {
			case 0:
				s.Publish(&id, &idenpuboffchain.PublicData{IdenState: &st}) //nolint:errcheck
			case 1:
				d, err := s.GetPublicData("u", &id, &st)
				h.check(err != nil || *d.IdenState == st, "data of another state")
			case 2:
				s.GetPublicData("u", &id, nil) //nolint:errcheck
			case 3:
				s.GetPublicData("v", &id, nil) //nolint:errcheck
			}
		})
		h.within("off-chain store afterwards", func() {
			s.Publish(&core.ID{9}, &idenpuboffchain.PublicData{IdenState: &merkletree.Hash{}}) //nolint:errcheck
		})
		h.sample("5 callers, 100 calls each")
	}
	h.done()
}
