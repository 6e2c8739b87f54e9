package claims

import (
	"bytes"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
)

func TestVerifC10(t *testing.T) {
	h := vstart(t, 10)
	for h.more(1000, 100000) {
		var is [IndexSlotLen]byte
		var vs [ValueSlotLen]byte
		var os [IndexSubjectSlotLen]byte
		copy(is[:], h.bytes(len(is)))
		copy(vs[:], h.bytes(len(vs)))
		copy(os[:], h.bytes(len(os)))
		nonce := h.r.Uint32() >> uint(h.r.Intn(32))
		var c Claimer
		id := h.id()
		pk := h.key()
		kt := BabyJubKeyType(h.r.Uint64() >> uint(h.r.Intn(64)))
		desc := ""
		kind := h.r.Intn(3)
		h.quiet(func() string { return desc }, func() {
			switch kind {
			case 0:
				desc = "basic claim index " + hx(is[:]) + " value " + hx(vs[:])
				c = NewClaimBasic(is, vs)
			case 1:
				desc = "key claim " + pk.X.String() + " " + pk.Y.String()
				c = NewClaimKeyBabyJub(pk, kt)
			default:
				desc = "other identity claim " + hx(id[:]) + " index " + hx(os[:]) + " value " + hx(vs[:])
				c = NewClaimOtherIden(id, os, vs)
			}
			c.Metadata().RevNonce = nonce
			e := c.Entry()
			h.check(inField(e.Data), "%s does not fit the field: %x", desc, e.Bytes())
			e0 := e.Data
			p, err := NewClaimFromEntry(e)
			h.check(err == nil, "%s is refused: %v", desc, err)
			h.check(e.Data == e0, "%s: parsing changed the entry", desc)
			m := p.(Claimer).Metadata()
			h.check(m.Header() == c.Metadata().Header() && m.RevNonce == nonce && m.Type() == c.Metadata().Type(), "%s: metadata %+v becomes %+v", desc, *c.Metadata(), *m)
			h.check(GetRevocationNonce(e) == nonce, "%s: nonce %d read as %d", desc, nonce, GetRevocationNonce(e))
			switch kind {
			case 0:
				b := p.(*ClaimBasic)
				h.check(b.IndexSlot == is && b.ValueSlot == vs, "%s parsed as index %x value %x", desc, b.IndexSlot, b.ValueSlot)
				h.check(m.Subject == nil, "%s parsed with a subject", desc)
			case 1:
				k := p.(*ClaimKeyBabyJub)
				h.check(k.KeyType == kt && k.Ax.Cmp(pk.X) == 0 && k.Ay.Cmp(pk.Y) == 0, "%s type %d parsed as %v %v type %d", desc, kt, k.Ax, k.Ay, k.KeyType)
			default:
				o := p.(*ClaimOtherIden)
				h.check(o.IndexSlot == os && o.ValueSlot == vs, "%s parsed as index %x value %x", desc, o.IndexSlot, o.ValueSlot)
				h.check(m.Subject != nil && *m.Subject == *id, "%s parsed with subject %v", desc, m.Subject)
				h.check(bytes.Equal(e0[1][:31], id[:]), "%s: subject is not in the second element", desc)
			}
			h.check(p.Entry().Data == e0, "%s: entry %x becomes %x", desc, e.Bytes(), p.Entry().Bytes())
			// header bytes
			var hd [12]byte
			hd[7] = byte(kind)
			if kind == 2 {
				hd[8] = 2
			}
			h.check(bytes.Equal(e0[0][:12], hd[:]), "%s: header %x", desc, e0[0][:12])
			// the generic claim and the hex form
			g := NewClaimGeneric(e)
			h.check(g.Entry().Data == e0 && g.Metadata().RevNonce == nonce, "%s: generic claim changes the entry", desc)
			g2, err := HexToClaimGeneric(ClaimToHex(c))
			h.check(err == nil && g2.Entry().Data == e0, "%s: hex form changes the entry, %v", desc, err)
		})
		var root merkletree.Hash
		copy(root[:], h.bytes(32))
		n, v := h.r.Uint32(), h.r.Uint32()>>uint(h.r.Intn(32))
		h.quiet(func() string { return "leaf" }, func() {
			l := NewLeafRootsTreeFromEntry(NewLeafRootsTree(root).Entry())
			h.check(l.Root == root, "roots tree leaf %x becomes %x", root, l.Root)
			e := NewLeafRevocationsTree(n, v).Entry()
			r := NewLeafRevocationsTreeFromEntry(e)
			h.check(r.Nonce == n && r.Version == v, "revocation leaf %d %d becomes %d %d", n, v, r.Nonce, r.Version)
			h.check(r.Entry().Data == e.Data && inField(e.Data), "revocation leaf %d %d", n, v)
		})
		h.sample("%.60s nonce %d", desc, nonce)
	}
	h.done()
}
