package merkletree

import (
	"bytes"
	"strings"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestVerifC30(t *testing.T) {
	h := vstart(t, 30)
	pool := h.pool(160)
	for h.more(50, 20000) {
		max := []int{8, 10, 24, 140, 240}[h.r.Intn(5)]
		es := h.pick(pool, h.r.Intn(9))
		h.sample("%d levels, entries %s", max, descSet(es))
		h.quiet(func() string { return "entries " + descSet(es) }, func() {
			mt, in := h.tree(db.NewMemoryStorage(), max, es)
			k := len(in)
			var rk *Hash
			if h.r.Intn(2) == 0 {
				k = h.r.Intn(len(in) + 1)
				r := Hash(refRoot(in[:k], 0))
				rk = &r
			}
			set := in[:k]
			var w bytes.Buffer
			h.check(mt.DumpTree(&w, rk) == nil, "dump of %s fails", descSet(set))
			dump := w.Bytes()
			st := db.NewMemoryStorage()
			imp, err := NewMerkleTree(st, max)
			h.check(err == nil, "new tree: %v", err)
			var old []refEntry
			err = imp.ImportTree(bytes.NewReader(dump))
			h.check(err == nil, "import of the dump of %s: %v", descSet(set), err)
			chk := func(what string, m *MerkleTree, set []refEntry) {
				h.check([32]byte(*m.RootKey()) == refRoot(set, 0), "%s: root %x, want that of %s", what, m.RootKey()[:], descSet(set))
				h.lookups(what, m, set, es)
			}
			chk("imported dump", imp, set)
			re, err := NewMerkleTree(st, max)
			h.check(err == nil, "reopening: %v", err)
			chk("imported dump, reopened", re, set)
			// the imported tree is a working tree
			for _, e := range h.pick(pool, 2) {
				nx := append(set[:len(set):len(set)], e)
				err := imp.AddEntry(&Entry{Data: e.d})
				h.check((err == nil) == (refFind(set, e.hi) == nil && refFits(nx, 0, max)), "adding to an imported tree: %v", err)
				if err == nil {
					set = nx
				}
			}
			chk("imported dump, added to", imp, set)
			set = in[:k]
			// truncated dumps
			cuts := []int{len(dump) - 1, len(dump) - 33, len(dump) - 34}
			root := 3 + len(rootNodeValue) + 33
			cuts = append(cuts, len(dump)-root, len(dump)-root+3, len(dump)-root+1, 0)
			for i := 0; i < 4; i++ {
				cuts = append(cuts, h.r.Intn(len(dump)))
			}
			other := h.pick(pool, h.r.Intn(3))
			for _, c := range cuts {
				if c < 0 || c >= len(dump) {
					continue
				}
				st := db.NewMemoryStorage()
				m, o := h.tree(st, max, other)
				old = o
				before := h.storeDump(st)
				err = m.ImportTree(bytes.NewReader(dump[:c:c]))
				h.check(err != nil, "the dump of %s (%d bytes) truncated to %d bytes is accepted", descSet(set), len(dump), c)
				h.check(h.storeDump(st) == before, "a refused dump changed what is stored")
				chk("tree that refused a dump", m, old)
			}
			// dumped claims
			cs, err := mt.DumpClaims(rk)
			h.check(err == nil && len(cs) == len(set), "%d claims dumped of %s: %v", len(cs), descSet(set), err)
			for i := range cs {
				if h.r.Intn(3) == 0 {
					cs[i] = strings.TrimPrefix(cs[i], "0x")
				}
			}
			h.r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			m, err := NewMerkleTree(db.NewMemoryStorage(), max)
			h.check(err == nil, "new tree: %v", err)
			h.check(m.ImportDumpedClaims(cs) == nil, "claims dumped of %s are refused", descSet(set))
			chk("imported claims", m, set)
			// the writer form lists the same claims
			var cw bytes.Buffer
			h.check(mt.DumpClaimsIoWriter(&cw, rk) == nil, "dumping claims of %s", descSet(set))
			h.check(strings.Count(cw.String(), "0x") == len(set), "claims written for %s: %s", descSet(set), cw.String())
			for i := range set {
				b := set[i].d.Bytes()
				h.check(strings.Contains(cw.String(), "\"0x"+hx(b[:])+"\""), "claims written for %s miss %x", descSet(set), b)
			}
		})
	}
	h.done()
}
