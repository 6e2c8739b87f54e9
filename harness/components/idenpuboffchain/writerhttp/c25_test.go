package writerhttp

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

type pub struct {
	state, clr, ret, rot merkletree.Hash
	retBlob, rotBlob     []byte
}

func dumpOf(mt *merkletree.MerkleTree, root *merkletree.Hash) []byte {
	var b bytes.Buffer
	if err := mt.DumpTree(&b, root); err != nil {
		return nil
	}
	return b.Bytes()
}

// histories of publications at every cache length against a plain list of the last N
func TestVerifC25(t *testing.T) {
	h := vstart(t, 25)
	for h.more(12, 2000) {
		n := 1 + h.r.Intn(7)
		if h.n == 3 || h.r.Intn(20) == 0 {
			n = 250 + h.r.Intn(6)
		}
		w, err := NewIdenPubOffChainWriteHttp(&Config{CacheLen: byte(n), Url: "http://u"}, db.NewMemoryStorage())
		h.check(err == nil, "new writer: %v", err)
		rot, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		ret, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		_, err = w.GetPublicData(nil)
		h.check(err != nil, "cache of %d: data served before any was published", n)
		_, err = w.GetPublicData(&merkletree.Hash{1})
		h.check(err != nil, "cache of %d: a state served before any was published", n)
		var all []*pub
		pubs := 1 + h.r.Intn(3*n+3)
		if n > 200 {
			pubs = n - 3 + h.r.Intn(12)
		}
		for i := 0; i < pubs; i++ {
			// grow one, both or none of the trees
			if h.r.Intn(3) > 0 && i < 10 {
				if err := claims.AddLeafRevocationsTree(ret, h.r.Uint32(), 0xffffffff); err != nil {
					h.fail("revocation leaf: %v", err)
				}
			}
			var clr merkletree.Hash
			h.r.Read(clr[:31])
			if h.r.Intn(2) > 0 && i < 10 {
				if err := claims.AddLeafRootsTree(rot, &clr); err != nil {
					h.fail("roots leaf: %v", err)
				}
			}
			p := &pub{clr: clr, ret: *ret.RootKey(), rot: *rot.RootKey()}
			st, err := core.CalculateIdenState(&p.clr, &p.ret, &p.rot)
			h.check(err == nil, "state: %v", err)
			p.state = *st
			p.retBlob, p.rotBlob = dumpOf(ret, &p.ret), dumpOf(rot, &p.rot)
			err = w.Publish(nil, &idenpuboffchain.PublicData{IdenState: st, ClaimsTreeRoot: &p.clr,
				RevocationsTreeRoot: &p.ret, RevocationsTree: ret, RootsTreeRoot: &p.rot, RootsTree: rot})
			h.check(err == nil, "publish: %v", err)
			all = append(all, p)
			if n > 200 && i < n-2 {
				continue
			}
			if h.r.Intn(8) == 0 { // a restart
				w, err = LoadIdenPubOffChainWriteHttp(w.storage)
				h.check(err == nil, "load: %v", err)
			}
			r, err := w.GetPublicData(nil)
			h.check(err == nil, "cache of %d, publication %d: latest: %v", n, i, err)
			h.same(n, i, i, r, p)
			for _, j := range []int{i, i - n + 1, i - n, h.r.Intn(i + 1), h.r.Intn(i + 1)} {
				if j < 0 {
					continue
				}
				r, err := w.GetPublicData(&all[j].state)
				if j > i-n {
					h.check(err == nil, "cache of %d, publication %d: state %d not served: %v", n, i, j, err)
					h.same(n, i, j, r, all[j])
				} else {
					h.check(err != nil, "cache of %d, publication %d: state %d served", n, i, j)
				}
			}
			var other merkletree.Hash
			h.r.Read(other[:31])
			_, err = w.GetPublicData(&other)
			h.check(err != nil, "cache of %d: a state that was never published is served", n)
			if h.r.Intn(4) == 0 {
				h.receive(r)
			}
		}
		h.sample("cache of %d, %d publications", n, pubs)
	}
	h.done()
}

func (h *vh) same(n, i, j int, r *idenpuboffchain.PublicDataBlobs, p *pub) {
	h.check(r.IdenState == p.state && r.ClaimsTreeRoot == p.clr && r.RevocationsTreeRoot == p.ret && r.RootsTreeRoot == p.rot &&
		bytes.Equal(r.RevocationsTree, p.retBlob) && bytes.Equal(r.RootsTree, p.rotBlob),
		"cache of %d, publication %d: other data served for state %d", n, i, j)
}

// the receiver accepts what was served, and nothing in which a root, the state or a tree is another
func (h *vh) receive(b *idenpuboffchain.PublicDataBlobs) {
	d, err := idenpuboffchain.NewPublicDataFromBlobs(b)
	h.check(err == nil, "served data refused: %v", err)
	h.check(*d.IdenState == b.IdenState && *d.ClaimsTreeRoot == b.ClaimsTreeRoot && *d.RevocationsTreeRoot == b.RevocationsTreeRoot &&
		*d.RootsTreeRoot == b.RootsTreeRoot && *d.RevocationsTree.RootKey() == b.RevocationsTreeRoot && *d.RootsTree.RootKey() == b.RootsTreeRoot,
		"received data is other than what was sent")
	c := *b
	flip := func(x *merkletree.Hash) { x[h.r.Intn(31)] ^= 1 << uint(h.r.Intn(8)) }
	what := ""
	restate := h.r.Intn(2) == 0 // give it the state its roots hash to
	switch h.r.Intn(10) {
	case 0:
		what = "state"
		restate = false
		flip(&c.IdenState)
	case 1:
		what = "claims root"
		restate = false
		flip(&c.ClaimsTreeRoot)
	case 2:
		what = "revocations root"
		flip(&c.RevocationsTreeRoot)
	case 3:
		what = "roots root"
		flip(&c.RootsTreeRoot)
	case 4:
		what = "revocation tree and root swapped with the roots tree's"
		restate = false
		if c.RevocationsTreeRoot == c.RootsTreeRoot {
			return
		}
		c.RevocationsTree, c.RootsTree = c.RootsTree, c.RevocationsTree
		c.RevocationsTreeRoot, c.RootsTreeRoot = c.RootsTreeRoot, c.RevocationsTreeRoot
	case 5:
		what = "revocation tree and roots tree swapped"
		if c.RevocationsTreeRoot == c.RootsTreeRoot {
			return
		}
		c.RevocationsTree, c.RootsTree = c.RootsTree, c.RevocationsTree
	case 6:
		what = "revocation tree cut off"
		if len(c.RevocationsTree) == 0 {
			return
		}
		c.RevocationsTree = c.RevocationsTree[:h.r.Intn(len(c.RevocationsTree))]
	default:
		what = "roots tree or revocation tree replaced by an empty or another one"
		mt, _ := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
		if h.r.Intn(2) == 0 {
			claims.AddLeafRevocationsTree(mt, h.r.Uint32(), 0xffffffff) //nolint:errcheck
		}
		restate = false
		if h.r.Intn(2) == 0 {
			c.RootsTree = dumpOf(mt, mt.RootKey())
		} else {
			c.RevocationsTree = dumpOf(mt, mt.RootKey())
		}
	}
	if restate {
		if st, err := core.CalculateIdenState(&c.ClaimsTreeRoot, &c.RevocationsTreeRoot, &c.RootsTreeRoot); err == nil {
			c.IdenState = *st
		}
	}
	h.quiet(func() string { return fmt.Sprintf("received data with another %s", what) }, func() {
		d, err := idenpuboffchain.NewPublicDataFromBlobs(&c)
		if err == nil && *d.RevocationsTree.RootKey() == c.RevocationsTreeRoot && *d.RootsTree.RootKey() == c.RootsTreeRoot {
			st, err2 := core.CalculateIdenState(&c.ClaimsTreeRoot, &c.RevocationsTreeRoot, &c.RootsTreeRoot)
			if err2 == nil && *st == c.IdenState {
				return // a valid data set all the same
			}
		}
		h.check(err != nil, "data accepted with another %s", what)
	})
}
