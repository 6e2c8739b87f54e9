package merkletree

import (
	"bytes"
	"encoding/json"
	"testing"
)

func TestVerifC06(t *testing.T) {
	h := vstart(t, 6)
	same := func(p *Proof, rp refProof, b []byte) {
		h.check(p.Existence == rp.exist, "proof %x parsed as existence=%v", b, p.Existence)
		h.check(len(p.Siblings) == len(rp.sibs), "proof %x parsed with %d siblings, want %d", b, len(p.Siblings), len(rp.sibs))
		for i := range rp.sibs {
			h.check([32]byte(*p.Siblings[i]) == rp.sibs[i], "proof %x: sibling %d is %x", b, i, p.Siblings[i][:])
		}
		h.check((p.NodeAux != nil) == rp.aux, "proof %x: neighbouring leaf %v", b, p.NodeAux)
		if rp.aux {
			h.check([32]byte(*p.NodeAux.HIndex) == rp.ahi && [32]byte(*p.NodeAux.HValue) == rp.ahv, "proof %x: neighbouring leaf %x %x", b, p.NodeAux.HIndex[:], p.NodeAux.HValue[:])
		}
		h.check(bytes.Equal(p.Bytes(), rp.bytes()), "proof %x serializes to %x", b, p.Bytes())
		all := p.AllSiblings()
		h.check(len(all) == rp.depth, "proof %x: depth %d", b, len(all))
		j := 0
		for l, s := range all {
			var w [32]byte
			if rp.bit(l) {
				w = rp.sibs[j]
				j++
			}
			h.check([32]byte(*s) == w, "proof %x: sibling of level %d is %x", b, l, s[:])
		}
	}
	for h.more(1500, 200000) {
		rp := h.refProof()
		b := rp.bytes()
		in := append([]byte{}, b...)
		desc := func() string { return "proof bytes " + hx(in) }
		h.quiet(desc, func() {
			p, err := NewProofFromBytes(b)
			h.check(err == nil, "%s refused: %v", desc(), err)
			same(p, rp, b)
			h.check(bytes.Equal(b, in), "%s modified", desc())
			q, err := NewProofFromBytes(p.Bytes())
			h.check(err == nil, "%s serialized and refused: %v", desc(), err)
			same(q, rp, b)
			for i := range b {
				b[i] ^= 0xff // the parsed proof keeps its own values
			}
			same(p, rp, in)
			copy(b, in)
			if h.r.Intn(4) == 0 {
				j, err := json.Marshal(p)
				h.check(err == nil, "%s to JSON: %v", desc(), err)
				var q Proof
				h.check(json.Unmarshal(j, &q) == nil, "%s from JSON %s", desc(), j)
				same(&q, rp, b)
			}
			for i := 0; i < 2; i++ {
				m := h.r.Intn(len(b))
				if h.r.Intn(2) == 0 && len(b) > 33 {
					m = len(b) - 1 - h.r.Intn(33)
				}
				_, err = NewProofFromBytes(b[:m:m])
				h.check(err != nil, "%s truncated to %d bytes is accepted", desc(), m)
				_, err = NewProofFromBytes(b[:m])
				h.check(err != nil, "%s truncated to %d bytes (in a longer buffer) is accepted", desc(), m)
			}
		})
		n := h.r.Intn(300)
		x := h.bytes(n)
		if n > 1 && h.r.Intn(2) == 0 {
			x[0] = byte(h.r.Intn(8))
			x[1] = byte(h.r.Intn(256))
		}
		if n > 32 && h.r.Intn(2) == 0 {
			for i := 2; i < 31; i++ {
				x[i] = 0
			}
		}
		xin := append([]byte{}, x...)
		h.quiet(func() string { return "parsing " + hx(xin) }, func() {
			p, err := NewProofFromBytes(x)
			rp, ok := refParse(xin)
			h.check((p != nil) == (err == nil), "parsing %x gives %v, %v", xin, p, err)
			if err == nil {
				h.check(ok, "malformed bytes %x are accepted", xin)
				same(p, rp, xin)
			}
		})
	}
	h.done()
}
