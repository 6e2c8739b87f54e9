package claims

import (
	"encoding/binary"
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
)

func TestVerifC11(t *testing.T) {
	h := vstart(t, 11)
	for h.more(3000, 200000) {
		hd := ClaimHeader{Subject: ClaimSubject(h.r.Intn(4)), SubjectPos: ClaimSubjectPos(h.r.Intn(2)), Expiration: h.r.Intn(2) == 0, Version: h.r.Intn(2) == 0}
		copy(hd.Type[:], h.bytes(8))
		m := NewMetadata(hd)
		m.RevNonce, m.Version, m.Expiration = h.r.Uint32()>>uint(h.r.Intn(32)), h.r.Uint32(), int64(h.r.Uint64())
		if hd.Subject != ClaimSubjectSelf {
			m.Subject = h.id()
		}
		before := h.anyData()
		e := &merkletree.Entry{Data: before}
		h.quiet(func() string { return "metadata" }, func() {
			m.Marshal(e)
			want := before
			copy(want[0][:8], hd.Type[:])
			want[0][8] = byte(hd.Subject) | byte(hd.SubjectPos)<<2
			if hd.Expiration {
				want[0][8] |= 8
				binary.LittleEndian.PutUint64(want[4][4:], uint64(m.Expiration))
			}
			if hd.Version {
				want[0][8] |= 16
				binary.LittleEndian.PutUint32(want[0][12:], m.Version)
			}
			if hd.Subject != ClaimSubjectSelf {
				if hd.SubjectPos == ClaimSubjectPosIndex {
					copy(want[1][:], m.Subject[:])
				} else {
					copy(want[5][:], m.Subject[:])
				}
			}
			binary.LittleEndian.PutUint32(want[4][:], m.RevNonce)
			h.check(e.Data == want, "metadata %+v over %x gives %x, not %x", m, before, e.Data, want)
			var r Metadata
			r.Unmarshal(e)
			h.check(r.Header() == hd && r.Type() == hd.Type && r.RevNonce == m.RevNonce, "metadata %+v read back as %+v", m, r)
			h.check(!hd.Version || r.Version == m.Version, "metadata %+v read back as %+v", m, r)
			h.check(!hd.Expiration || r.Expiration == m.Expiration, "metadata %+v read back as %+v", m, r)
			h.check(hd.Subject == ClaimSubjectSelf || r.Subject != nil && *r.Subject == *m.Subject, "metadata %+v read back as %+v", m, r)
			h.check(GetRevocationNonce(e) == m.RevNonce, "nonce of %+v", m)
			h.check(e.Data == want, "reading changed the entry")
		})
		d := h.anyData()
		h.quiet(func() string { b := d.Bytes(); return "entry " + hx(b[:]) }, func() {
			e := &merkletree.Entry{Data: d}
			var r Metadata
			r.Unmarshal(e)
			_ = NewClaimGeneric(e).Entry()
			_ = NewClaimBasicFromEntry(e).Entry()
			_ = NewClaimKeyBabyJubFromEntry(e).Entry()
			o := NewClaimOtherIdenFromEntry(e)
			_ = o.Entry()
		})
		h.sample("metadata %+v", m)
	}
	h.done()
}
