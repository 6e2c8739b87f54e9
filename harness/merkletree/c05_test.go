package merkletree

import (
	"bytes"
	"testing"
)

func TestVerifC05(t *testing.T) {
	h := vstart(t, 5)
	for h.more(2000, 200000) {
		d := h.data()
		e := &Entry{Data: d}
		eb := e.Bytes()
		h.quiet(func() string { return "entry " + hx(eb) }, func() {
			h.check(len(eb) == 256, "entry bytes have length %d", len(eb))
			for i := range d {
				h.check(bytes.Equal(eb[32*i:32*i+32], d[i][:]), "entry bytes %x of data %x", eb, d)
			}
			e2, err := NewEntryFromBytes(eb)
			h.check(err == nil && e2.Data == d, "entry %x decoded as %v, %v", eb, e2, err)
			h.check(e.Equal(e2) && e.Clone().Data == d, "entry %x not equal to its copy", eb)
			n := h.r.Intn(520)
			if n != 256 {
				_, err = NewEntryFromBytes(h.bytes(n))
				h.check(err != nil, "%d bytes accepted as an entry", n)
			}
		})
		var n *Node
		var l, r Hash
		switch h.r.Intn(3) {
		case 0:
			n = NewNodeLeaf(e)
		case 1:
			l, r = Hash(h.elem()), Hash(h.elem())
			n = NewNodeMiddle(&l, &r)
		default:
			n = NewNodeEmpty()
		}
		nb := n.Value()
		if n.Type != NodeTypeEmpty {
			h.quiet(func() string { return "node " + hx(nb) }, func() {
				m, err := NewNodeFromBytes(nb)
				h.check(err == nil && m.Type == n.Type, "node %x decoded as %v, %v", nb, m, err)
				h.check(bytes.Equal(m.Value(), nb), "node %x encodes again to %x", nb, m.Value())
				switch n.Type {
				case NodeTypeLeaf:
					h.check(m.Entry.Data == d, "leaf %x decoded to data %x", nb, m.Entry.Data)
				case NodeTypeMiddle:
					h.check(*m.ChildL == l && *m.ChildR == r, "middle node %x decoded to %x %x", nb, *m.ChildL, *m.ChildR)
				}
				if h.n%8 == 0 {
					k1, err1 := n.Key()
					k2, err2 := m.Key()
					h.check(err1 == nil && err2 == nil && *k1 == *k2, "key of node %x changes from %v to %v", nb, k1, k2)
				}
			})
		}
		// arbitrary bytes
		ln := []int{0, 1, 2, 32, 33, 64, 65, 66, 255, 256, 257, 258, h.r.Intn(300)}[h.r.Intn(13)]
		b := h.bytes(ln)
		if ln > 0 && h.r.Intn(3) > 0 {
			b[0] = byte(h.r.Intn(4))
		}
		in := append([]byte{}, b...)
		h.quiet(func() string { return "bytes " + hx(in) }, func() {
			m, err := NewNodeFromBytes(b)
			good := ln > 0 && (b[0] == 0 && ln == 65 || b[0] == 1 && ln == 257 || b[0] == 2 && ln == 1)
			h.check((err == nil) == good, "NewNodeFromBytes(%x) error %v", in, err)
			h.check(bytes.Equal(b, in), "NewNodeFromBytes changes its input %x", in)
			if err == nil && m.Type != NodeTypeEmpty {
				h.check(bytes.Equal(m.Value(), in), "node %x encodes again to %x", in, m.Value())
			}
		})
		h.sample("node bytes %x", in)
	}
	h.done()
}
