package core

import (
	"bytes"
	"testing"

	"github.com/btcsuite/btcutil/base58"
)

func vsum(b []byte) uint16 {
	s := uint16(0)
	for _, x := range b {
		s += uint16(x)
	}
	return s
}

func vvalid(b []byte) bool {
	return len(b) == 31 && vsum(b[:29]) != 0 && b[29] == byte(vsum(b[:29])>>8) && b[30] == byte(vsum(b[:29]))
}

func TestVerifC12(t *testing.T) {
	h := vstart(t, 12)
	for h.more(3000, 400000) {
		tg := h.bytes(29)
		if h.r.Intn(4) == 0 { // high sums: carries into the first checksum byte
			for i := range tg {
				tg[i] |= 0xf0
			}
		}
		var ty [2]byte
		var g [27]byte
		copy(ty[:], tg[:2])
		copy(g[:], tg[2:])
		s := vsum(tg)
		full := append(append([]byte{}, tg...), byte(s>>8), byte(s))
		h.quiet(func() string { return "identifier " + hx(full) }, func() {
			c := CalculateChecksum(ty, g)
			h.check(c[0] == byte(s>>8) && c[1] == byte(s), "checksum of %x is %x, expected %02x%02x", tg, c, byte(s>>8), byte(s))
			id := NewID(ty, g)
			h.check(bytes.Equal(id[:], full), "NewID(%x, %x) = %x, expected %x", ty, g, id[:], full)
			dt, dg, dc, err := DecomposeID(id)
			h.check(err == nil && dt == ty && dg == g && dc == c, "DecomposeID(%x) = %x %x %x %v", id[:], dt, dg, dc, err)
			p, err := IDFromString(id.String())
			h.check((err == nil) == (s != 0) && (err != nil || p == id), "identifier %x parsed from its text %s: %x %v", id[:], id.String(), p[:], err)
			var u ID
			copy(u[:], h.bytes(31))
			tx, err := id.MarshalText()
			h.check(err == nil, "MarshalText of %x: %v", id[:], err)
			err = u.UnmarshalText(tx)
			h.check((err == nil) == (s != 0) && (err != nil || u == id), "identifier %x unmarshalled: %x %v", id[:], u[:], err)
			h.check(id.Equal(&p) == (id == p), "Equal(%x,%x)", id[:], p[:])
		})
		// arbitrary and nearly valid bytes
		b := append([]byte{}, full...)
		switch h.r.Intn(8) {
		case 0:
			b[h.r.Intn(31)] ^= 1 << uint(h.r.Intn(8))
		case 1:
			b[29], b[30] = b[30], b[29]
		case 2:
			i, j := h.r.Intn(31), h.r.Intn(31)
			b[i], b[j] = b[j], b[i]
		case 3:
			b = append(b, h.bytes(1+h.r.Intn(3))...)
		case 4:
			b = b[:h.r.Intn(31)]
		case 5:
			b = h.bytes(h.r.Intn(40))
		case 6:
			b[29]++
		}
		in := append([]byte{}, b...)
		h.quiet(func() string { return "bytes " + hx(in) }, func() {
			id, err := IDFromBytes(b)
			h.check((err == nil) == vvalid(in), "IDFromBytes(%x): %v, valid=%v", in, err, vvalid(in))
			h.check(bytes.Equal(b, in), "IDFromBytes changed its input %x", in)
			h.check(err != nil || bytes.Equal(id[:], in), "IDFromBytes(%x) = %x", in, id[:])
			if len(in) == 31 {
				var a ID
				copy(a[:], in)
				h.check(CheckChecksum(a) == vvalid(in), "CheckChecksum(%x) = %v", in, CheckChecksum(a))
			}
			txt := base58.Encode(in)
			id, err = IDFromString(txt)
			h.check((err == nil) == vvalid(in) && (err != nil || bytes.Equal(id[:], in)), "IDFromString(%q): %x %v, valid=%v", txt, id[:], err, vvalid(in))
		})
		// arbitrary text
		raw := string(h.bytes(h.r.Intn(50)))
		h.quiet(func() string { return "text " + raw }, func() {
			id, err := IDFromString(raw)
			h.check(err != nil || vvalid(id[:]), "IDFromString(%q) = %x", raw, id[:])
			var u ID
			err = u.UnmarshalText([]byte(raw))
			h.check(err != nil || vvalid(u[:]), "UnmarshalText(%q) = %x", raw, u[:])
		})
		h.sample("identifier %x, bytes %x", full, in)
	}
	h.done()
}
