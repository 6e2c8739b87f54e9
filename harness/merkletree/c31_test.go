package merkletree

import (
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestVerifC31(t *testing.T) {
	h := vstart(t, 31)
	pool := h.pool(160)
	for h.more(40, 20000) {
		max := []int{12, 24, 140, 240}[h.r.Intn(4)]
		n := h.r.Intn(9)
		if h.r.Intn(8) == 0 {
			n = h.r.Intn(40)
		}
		es := h.pick(pool, n)
		for !refFits(es, 0, max) {
			es = es[1:]
		}
		h.sample("%d levels, entries %s", max, descSet(es))
		h.quiet(func() string { return "entries " + descSet(es) }, func() {
			mt, in := h.tree(db.NewMemoryStorage(), max, es)
			h.check(len(in) == len(es), "some of %s were not added", descSet(es))
			root := *mt.RootKey()
			for i := 0; i < 3; i++ {
				p := append([]refEntry{}, es...)
				h.r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
				m, _ := h.tree(db.NewMemoryStorage(), max, p)
				h.check(*m.RootKey() == root, "entries %s added as %s give another root", descSet(es), descSet(p))
			}
			if len(es) > 0 {
				p := append([]refEntry{}, es...)
				i := h.r.Intn(len(p))
				switch h.r.Intn(3) {
				case 0:
					p = append(p[:i], p[i+1:]...)
				default:
					x := p[i]
					x.d[h.r.Intn(8)][h.r.Intn(31)] ^= 1 << uint(h.r.Intn(8))
					p[i] = refNewEntry(x.d)
				}
				if refFits(p, 0, max) {
					m, _ := h.tree(db.NewMemoryStorage(), max, p)
					h.check(*m.RootKey() != root, "different sets %s and %s have the same root", descSet(es), descSet(p))
				}
			}
		})
	}
	h.done()
}
