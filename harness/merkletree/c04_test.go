package merkletree

import (
	"bytes"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestVerifC04(t *testing.T) {
	h := vstart(t, 4)
	pool := h.pool(160)
	for h.more(60, 20000) {
		max := h.levels()
		es := h.pick(pool, 1+h.r.Intn(7))
		h.sample("%d levels, entries %s", max, descSet(es))
		h.quiet(func() string { return "entries " + descSet(es) }, func() {
			mem := db.NewMemoryStorage()
			left := -1
			st := &faultStorage{mem, &left}
			same := func(what string, mt *MerkleTree, in []refEntry) {
				h.check([32]byte(*mt.RootKey()) == refRoot(in, 0), "%s: root in memory is not that of %s", what, descSet(in))
				re, err := NewMerkleTree(h.copyStore(mem), max)
				h.check(err == nil, "%s: reopening: %v", what, err)
				h.check(*re.RootKey() == *mt.RootKey(), "%s: with %s the root in memory is %x, the stored one %x", what, descSet(in), mt.RootKey()[:], re.RootKey()[:])
				h.lookups(what+", reopened", re, in, nil)
			}
			// creation, possibly failing
			left = h.r.Intn(5) - 1
			before := h.storeDump(mem)
			mt, err := NewMerkleTree(st, max)
			left = -1
			if err != nil {
				h.check(mt == nil && h.storeDump(mem) == before, "failing to create a tree changed what is stored")
				mt, err = NewMerkleTree(st, max)
				h.check(err == nil, "new tree: %v", err)
			}
			var in []refEntry
			same("new tree", mt, in)
			for _, e := range es {
				for try := h.r.Intn(3); try >= 0; try-- {
					if try > 0 {
						left = h.r.Intn(9)
					} else {
						left = -1
					}
					at := left
					before := h.storeDump(mem)
					nx := append(in[:len(in):len(in)], e)
					err := mt.AddEntry(&Entry{Data: e.d})
					left = -1
					if err == nil {
						in = nx
					} else {
						h.check(h.storeDump(mem) == before, "adding to %s, storage failing at step %d: the failed addition left traces", descSet(in), at)
						h.check(at >= 0 || refFind(in, e.hi) != nil || !refFits(nx, 0, max), "adding %s: %v", descSet(nx), err)
					}
					same("after an addition", mt, in)
					if err == nil {
						break
					}
				}
				if h.r.Intn(3) == 0 {
					// opening storage that cannot be read
					left = 0
					before := h.storeDump(mem)
					r, err := NewMerkleTree(st, max)
					left = -1
					h.check(err != nil && r == nil, "opening unreadable storage gives %v, %v", r, err)
					h.check(h.storeDump(mem) == before, "opening unreadable storage changed it")
					mt, err = NewMerkleTree(st, max)
					h.check(err == nil, "reopening: %v", err)
					same("reopened", mt, in)
				}
			}
			// importing a dump, possibly failing
			var w bytes.Buffer
			h.check(mt.DumpTree(&w, nil) == nil, "dump")
			mem = db.NewMemoryStorage()
			st = &faultStorage{mem, &left}
			imp, err := NewMerkleTree(st, max)
			h.check(err == nil, "new tree: %v", err)
			left = h.r.Intn(3) - 1
			err = imp.ImportTree(bytes.NewReader(w.Bytes()))
			at := left
			left = -1
			if err != nil {
				same("after a failed import", imp, nil)
			} else {
				h.check(at < 0 || at >= 0, "import")
				same("after an import", imp, in)
			}
		})
	}
	h.done()
}
