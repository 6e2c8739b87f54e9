package common

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"testing"
)

func isHex(s []byte) bool {
	if len(s)%2 != 0 {
		return false
	}
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func TestVerifC09(t *testing.T) {
	h := vstart(t, 109)
	for h.more(3000, 300000) {
		b := h.bytes(h.r.Intn(40))
		h.quiet(func() string { return "bytes " + hx(b) }, func() {
			s := HexEncode(b)
			h.check(s == "0x"+hx(b), "HexEncode(%x) = %s", b, s)
			for _, x := range []string{s, s[2:]} {
				r, err := HexDecode(x)
				h.check(err == nil && bytes.Equal(r, b), "HexDecode(%s) = %x, %v", x, r, err)
				for _, n := range []int{len(b), len(b) + 1, len(b) - 1} {
					if n < 0 {
						continue
					}
					dst := make([]byte, n)
					err := HexDecodeInto(dst, []byte(x))
					h.check((err == nil) == (n == len(b)), "HexDecodeInto(%d bytes, %s) error %v", n, x, err)
					h.check(err != nil || bytes.Equal(dst, b), "HexDecodeInto(%s) = %x", x, dst)
				}
			}
			tx, err := Hex(b).MarshalText()
			x := Hex(h.bytes(h.r.Intn(5)))
			err2 := x.UnmarshalText(tx)
			h.check(err == nil && err2 == nil && bytes.Equal(x, b), "Hex text %s decodes to %x, %v", tx, []byte(x), err2)
			s = BytesToBase64(b)
			r, err := Base64ToBytes(s)
			h.check(err == nil && bytes.Equal(r, b), "Base64ToBytes(%s) = %x, %v", s, r, err)
			for _, x := range []string{s, base64.RawStdEncoding.EncodeToString(b)} {
				r, err = Base64Decode(x)
				h.check(err == nil && bytes.Equal(r, b), "Base64Decode(%s) = %x, %v", x, r, err)
			}
			j, err := json.Marshal(HexEncode(b))
			r, err2 = UnmarshalJSONHexDecode(j)
			h.check(err == nil && err2 == nil && bytes.Equal(r, b), "UnmarshalJSONHexDecode(%s) = %x, %v", j, r, err2)
		})
		// any text
		tx := h.bytes(h.r.Intn(12))
		if h.r.Intn(2) == 0 {
			tx = []byte(hx(tx))
			if len(tx) > 0 && h.r.Intn(3) == 0 {
				tx[h.r.Intn(len(tx))] = "gx0A:"[h.r.Intn(5)]
			}
			if h.r.Intn(3) == 0 && len(tx) > 0 {
				tx = tx[1:]
			}
		}
		if h.r.Intn(3) == 0 {
			tx = append([]byte("0x"), tx...)
		}
		h.quiet(func() string { return "text " + string(tx) }, func() {
			plain := tx
			if len(plain) >= 2 && plain[0] == '0' && plain[1] == 'x' {
				plain = plain[2:]
			}
			_, err := HexDecode(string(tx))
			h.check((err == nil) == isHex(plain), "HexDecode(%q) error %v", tx, err)
			n := h.r.Intn(8)
			if h.r.Intn(2) == 0 {
				n = len(plain) / 2
			}
			dst := make([]byte, n)
			err = HexDecodeInto(dst, tx)
			h.check((err == nil) == (isHex(plain) && n == len(plain)/2), "HexDecodeInto(%d bytes, %q) error %v", n, tx, err)
			var x Hex
			err = x.UnmarshalText(tx)
			h.check((err == nil) == isHex(tx), "Hex.UnmarshalText(%q) error %v", tx, err)
			_, _ = Base64Decode(string(tx))
			_, _ = Base64ToBytes(string(tx))
			_, _ = UnmarshalJSONHexDecode(tx)
		})
		h.sample("bytes %x text %q", b, tx)
	}
	h.done()
}
