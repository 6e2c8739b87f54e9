package claims

import (
	"bytes"
	"testing"
)

func TestVerifC09(t *testing.T) {
	h := vstart(t, 309)
	for h.more(3000, 300000) {
		var ct ClaimType
		copy(ct[:], h.bytes(8))
		if h.r.Intn(3) == 0 {
			ct = NewClaimTypeNum(uint64(h.r.Intn(5)))
		}
		h.quiet(func() string { return "claim type " + hx(ct[:]) }, func() {
			tx, err := ct.MarshalText()
			var r ClaimType
			copy(r[:], h.bytes(8))
			err2 := r.UnmarshalText(tx)
			h.check(err == nil && err2 == nil && r == ct, "claim type %x has text %s, decoded as %x, %v", ct, tx, r, err2)
		})
		tx := [][]byte{[]byte("hex:"), []byte("str:"), []byte("hex:0x"), nil, []byte("hex"), []byte("str:Basic"), []byte("str:KeyBabyJub"), []byte("str:OtherIden")}[h.r.Intn(8)]
		tx = append([]byte{}, tx...)
		ok := bytes.Equal(tx, []byte("str:Basic")) || bytes.Equal(tx, []byte("str:KeyBabyJub")) || bytes.Equal(tx, []byte("str:OtherIden"))
		if k := h.r.Intn(20); k > 0 {
			x := []byte(hx(h.bytes(8)))
			if h.r.Intn(2) == 0 {
				x = x[:h.r.Intn(17)]
			} else if h.r.Intn(3) == 0 {
				x = append(x, x[:h.r.Intn(9)]...)
			}
			ok = len(x) == 16 && (string(tx) == "hex:" || string(tx) == "hex:0x") || ok && len(x) == 0
			tx = append(tx, x...)
		}
		h.quiet(func() string { return "claim type text " + string(tx) }, func() {
			var r ClaimType
			err := r.UnmarshalText(tx)
			h.check((err == nil) == ok, "claim type text %q: error %v", tx, err)
			var cs ClaimSubject
			_ = cs.UnmarshalText(tx)
			var cp ClaimSubjectPos
			_ = cp.UnmarshalText(tx)
		})
		cs, cp := ClaimSubject(h.r.Intn(6)), ClaimSubjectPos(h.r.Intn(4))
		h.quiet(func() string { return "subject" }, func() {
			t1, err := cs.MarshalText()
			h.check((err == nil) == (cs < 3), "subject %d: error %v", cs, err)
			if err == nil {
				var r ClaimSubject = 77
				h.check(r.UnmarshalText(t1) == nil && r == cs, "subject %d has text %s, decoded as %d", cs, t1, r)
			}
			t2, err := cp.MarshalText()
			h.check((err == nil) == (cp < 2), "subject position %d: error %v", cp, err)
			if err == nil {
				var r ClaimSubjectPos = 77
				h.check(r.UnmarshalText(t2) == nil && r == cp, "position %d has text %s, decoded as %d", cp, t2, r)
			}
		})
		h.sample("claim type %x text %q", ct, tx)
	}
	h.done()
}
