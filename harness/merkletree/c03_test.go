package merkletree

import (
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestVerifC03(t *testing.T) {
	h := vstart(t, 3)
	pool := h.pool(160)
	for h.more(40, 20000) {
		max := h.levels()
		n := 1 + h.r.Intn(9)
		if h.r.Intn(6) == 0 {
			n = 1 + h.r.Intn(40)
		}
		es := h.pick(pool, n)
		others := h.pick(pool, 4)
		h.sample("%d levels, entries %s", max, descSet(es))
		h.quiet(func() string { return "entries " + descSet(es) }, func() {
			st := db.NewMemoryStorage()
			mt, err := NewMerkleTree(st, max)
			h.check(err == nil, "new tree: %v", err)
			type snap struct {
				mt *MerkleTree
				in []refEntry
			}
			var in []refEntry
			var snaps []snap
			add := func(e refEntry) {
				before := h.storeDump(st)
				nx := append(in[:len(in):len(in)], e)
				ent := &Entry{Data: e.d}
				err := mt.AddEntry(ent)
				want := refFind(in, e.hi) == nil && refFits(nx, 0, max)
				h.check((err == nil) == want, "tree of %d levels with %s: adding %s: %v", max, descSet(in), descSet([]refEntry{e}), err)
				h.check(ent.Data == e.d, "adding changed the entry %s", descSet([]refEntry{e}))
				if err == nil {
					in = nx
				} else {
					h.check(h.storeDump(st) == before, "tree of %d levels with %s: failing to add %s changed what is stored", max, descSet(in), descSet([]refEntry{e}))
				}
				h.check([32]byte(*mt.RootKey()) == refRoot(in, 0), "tree of %d levels: after adding %s the root is %x", max, descSet(nx), mt.RootKey()[:])
			}
			for _, e := range es {
				if h.r.Intn(3) == 0 && len(in) > 0 {
					// the same index again, with the same or another value
					x := in[h.r.Intn(len(in))]
					if h.r.Intn(2) == 0 {
						x.d[4+h.r.Intn(4)][h.r.Intn(31)] ^= 1
						x = refNewEntry(x.d)
					}
					add(x)
				}
				if h.r.Intn(2) == 0 {
					r := *mt.RootKey()
					s, err := mt.Snapshot(&r)
					h.check(err == nil, "snapshot: %v", err)
					snaps = append(snaps, snap{s, in})
				}
				add(e)
				if len(in) < 10 {
					h.lookups("tree", mt, in, others)
				}
			}
			h.lookups("tree", mt, in, others)
			for _, s := range snaps {
				h.lookups("snapshot", s.mt, s.in, es)
				before := h.storeDump(st)
				r := *s.mt.RootKey()
				for _, e := range others[:2] {
					h.check(s.mt.AddEntry(&Entry{Data: e.d}) != nil, "a snapshot accepted an addition")
				}
				h.check(h.storeDump(st) == before && *s.mt.RootKey() == r, "a refused addition to a snapshot changed it")
				h.lookups("snapshot", s.mt, s.in, es)
			}
			re, err := NewMerkleTree(st, max)
			h.check(err == nil, "reopening: %v", err)
			h.lookups("reopened tree", re, in, others)
		})
	}
	h.done()
}
