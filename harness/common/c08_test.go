package common

import (
	"bytes"
	"testing"
)

func TestVerifC08(t *testing.T) {
	h := vstart(t, 8)
	for h.more(3000, 300000) {
		n := h.r.Intn(70)
		if h.r.Intn(3) == 0 {
			n = 30
		}
		b := h.bytes(n)
		in := append([]byte{}, b...)
		h.quiet(func() string { return "bytes " + hx(in) }, func() {
			s := SwapEndianness(b)
			h.check(len(s) == n && bytes.Equal(b, in), "SwapEndianness(%x) = %x, input now %x", in, s, b)
			for i := range in {
				h.check(s[n-1-i] == in[i], "SwapEndianness(%x) = %x", in, s)
			}
			h.check(bytes.Equal(SwapEndianness(s), in), "SwapEndianness twice of %x", in)
			if n == 0 {
				return
			}
			k := uint(h.r.Intn(8 * n))
			le := func(x []byte, i uint) bool { return x[i/8]>>(i%8)&1 == 1 }
			be := func(x []byte, i uint) bool { return x[uint(n)-1-i/8]>>(i%8)&1 == 1 }
			x := append([]byte{}, in...)
			y := append([]byte{}, in...)
			for i := uint(0); i < uint(8*n); i++ {
				h.check(TestBit(b, i) == le(in, i), "TestBit(%x, %d)", in, i)
				h.check(TestBitBigEndian(b, i) == be(in, i), "TestBitBigEndian(%x, %d)", in, i)
			}
			SetBit(x, k)
			SetBitBigEndian(y, k)
			for i := uint(0); i < uint(8*n); i++ {
				h.check(le(x, i) == (i == k || le(in, i)), "SetBit(%x, %d) = %x", in, k, x)
				h.check(be(y, i) == (i == k || be(in, i)), "SetBitBigEndian(%x, %d) = %x", in, k, y)
			}
		})
		u := h.r.Uint64() >> uint(h.r.Intn(64))
		h.quiet(func() string { return "number" }, func() {
			w := Uint64ToEthBytes(u)
			for i := 0; i < 8; i++ {
				h.check(len(w) == 8 && w[7-i] == byte(u>>(8*uint(i))), "Uint64ToEthBytes(%#x) = %x", u, w)
			}
			h.check(EthBytesToUint64(w) == u, "EthBytesToUint64(%x)", w)
			d := uint32(u)
			c := Uint32ToBytes(d)
			h.check(bytes.Equal(c, []byte{byte(d), byte(d >> 8), byte(d >> 16), byte(d >> 24)}) && BytesToUint32(c) == d, "Uint32ToBytes(%#x) = %x back %#x", d, c, BytesToUint32(c))
			c = Uint32ToEthBytes(d)
			h.check(bytes.Equal(c, []byte{byte(d >> 24), byte(d >> 16), byte(d >> 8), byte(d)}) && EthBytesToUint32(c) == d, "Uint32ToEthBytes(%#x) = %x back %#x", d, c, EthBytesToUint32(c))
			q := uint16(u)
			c = Uint16ToBytes(q)
			h.check(bytes.Equal(c, []byte{byte(q), byte(q >> 8)}) && BytesToUint16(c) == q, "Uint16ToBytes(%#x) = %x back %#x", q, c, BytesToUint16(c))
		})
		h.sample("bitmap %x number %#x", in, u)
	}
	h.done()
}
