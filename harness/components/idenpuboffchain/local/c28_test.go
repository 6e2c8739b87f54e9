package local

import (
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
)

// publications and queries for several identities against a plain record
func TestVerifC28(t *testing.T) {
	h := vstart(t, 281)
	for h.more(300, 20000) {
		s := NewIdenPubOffChain("u")
		var ids [3]core.ID
		for i := range ids {
			h.r.Read(ids[i][:])
		}
		m := map[string]*idenpuboffchain.PublicData{}
		log := ""
		for k := 0; k < 30; k++ {
			i, n := h.r.Intn(3), byte(h.r.Intn(4))
			id, st := ids[i], merkletree.Hash{n}
			key := fmt.Sprintf("%d/%d", i, n)
			switch h.r.Intn(4) {
			case 0:
				p := &idenpuboffchain.PublicData{IdenState: &st}
				h.check(s.Publish(&id, p) == nil, "publish failed;%s", log)
				m[key], m[fmt.Sprintf("%d", i)] = p, p
				log += " publish " + key
			case 1:
				r, err := s.GetPublicData("u", &id, &st)
				h.check((err == nil) == (m[key] != nil) && r == m[key], "state %s: %v %v;%s", key, r, err, log)
			case 2:
				r, err := s.GetPublicData("u", &id, nil)
				w := m[fmt.Sprintf("%d", i)]
				h.check((err == nil) == (w != nil) && r == w, "latest of %d: %v %v;%s", i, r, err, log)
			case 3:
				_, err := s.GetPublicData("v", &id, &st)
				h.check(err != nil, "another address answered;%s", log)
			}
		}
		h.sample("%s", log)
	}
	h.done()
}
