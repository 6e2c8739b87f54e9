package merkletree

import (
	"bytes"
	"testing"
)

func TestVerifC02(t *testing.T) {
	h := vstart(t, 2)
	for h.more(250, 100000) {
		rp := h.refProof()
		hi, hv := [32]byte(h.elem()), [32]byte(h.elem())
		switch h.r.Intn(8) {
		case 0:
			if rp.aux {
				hi = rp.ahi
			}
		case 1:
			copy(hv[:], h.bytes(32))
		case 2:
			copy(hi[:], h.bytes(32))
		case 3:
			hv = [32]byte{}
		}
		b := rp.bytes()
		desc := func() string { return "proof " + hx(b) + " index " + hx(hi[:]) + " value " + hx(hv[:]) }
		h.sample("%s", desc())
		h.quiet(desc, func() {
			p, err := NewProofFromBytes(b)
			h.check(err == nil, "%s: parsing: %v", desc(), err)
			want, ok := rp.root(hi, hv)
			ghi, ghv := Hash(hi), Hash(hv)
			r, err := RootFromProof(p, &ghi, &ghv)
			h.check((err == nil) == ok, "%s: RootFromProof says %v, it should be usable: %v", desc(), err, ok)
			if ok {
				h.check(r != nil && [32]byte(*r) == want, "%s: root %x, want %x", desc(), r[:], want)
			}
			w := Hash(want)
			h.check(VerifyProof(&w, p, &ghi, &ghv) == ok, "%s: verification against the recomputed root %x is not %v", desc(), want, ok)
			for i := 0; i < 3; i++ {
				o := w
				o[h.r.Intn(32)] ^= byte(1 << uint(h.r.Intn(8)))
				h.check(!VerifyProof(&o, p, &ghi, &ghv), "%s: accepted for another root %x", desc(), o[:])
			}
			r2, err2 := RootFromProof(p, &ghi, &ghv)
			h.check((err2 == nil) == ok && (!ok || [32]byte(*r2) == want), "%s: asked again, another outcome", desc())
			h.check(bytes.Equal(p.Bytes(), b) && ghi == Hash(hi) && ghv == Hash(hv), "%s: arguments modified", desc())
			h.check(HashZero == Hash{}, "%s: the empty key was modified", desc())
		})
	}
	h.done()
}
