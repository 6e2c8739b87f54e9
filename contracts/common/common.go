package common

import (
	v "github.com/iden3/go-iden3-core/zzverif"
)

// bit n of a bitmap, least significant byte first
func specBit(b []byte, n uint) bool { return (b[n/8]>>(n%8))&1 == 1 }

// bit n of a bitmap, most significant byte first
func specBitBE(b []byte, n uint) bool { return (b[uint(len(b))-1-n/8]>>(n%8))&1 == 1 }

//verif:contract prop=C08 target=SetBit
func vc_SetBit(bitmap []byte, n, k uint) {
	v.Requires(n/8 < uint(len(bitmap)))
	v.Requires(k/8 < uint(len(bitmap)))
	old := v.Old(bitmap).([]byte)
	v.Modifies(bitmap)
	SetBit(bitmap, n)
	v.Ensures("the bit is set", specBit(bitmap, n))
	v.Ensures("every other bit is unchanged", k == n || specBit(bitmap, k) == specBit(old, k))
	v.Ensures("the bit tests true", TestBit(bitmap, n))
}

//verif:contract prop=C08 target=SetBitBigEndian
func vc_SetBitBigEndian(bitmap []byte, n, k uint) {
	v.Requires(n/8 < uint(len(bitmap)))
	v.Requires(k/8 < uint(len(bitmap)))
	old := v.Old(bitmap).([]byte)
	v.Modifies(bitmap)
	SetBitBigEndian(bitmap, n)
	v.Ensures("the bit is set", specBitBE(bitmap, n))
	v.Ensures("every other bit is unchanged", k == n || specBitBE(bitmap, k) == specBitBE(old, k))
	v.Ensures("the bit tests true", TestBitBigEndian(bitmap, n))
}

//verif:contract prop=C08 target=TestBit
func vc_TestBit(bitmap []byte, n uint) {
	v.Requires(n/8 < uint(len(bitmap)))
	r := TestBit(bitmap, n)
	v.Ensures("tests the numbered bit", r == specBit(bitmap, n))
}

//verif:contract prop=C08 target=TestBitBigEndian
func vc_TestBitBigEndian(bitmap []byte, n uint) {
	v.Requires(n/8 < uint(len(bitmap)))
	r := TestBitBigEndian(bitmap, n)
	v.Ensures("tests the numbered bit", r == specBitBE(bitmap, n))
}

// the 30-byte bitmap of a Merkle proof, as an array value
//verif:contract prop=C08
func vc_Bitmap30(a [30]byte, n, k uint) {
	v.Requires(n < 240 && k < 240)
	b := a
	SetBitBigEndian(b[:], n)
	v.Ensures("set bit", specBitBE(b[:], n))
	v.Ensures("other bits", k == n || specBitBE(b[:], k) == specBitBE(a[:], k))
}

//verif:inv target=SwapEndianness
func inv_swapLen(b, o []byte) bool { return len(o) == len(b) }

//verif:inv target=SwapEndianness
func inv_swapDone(b, o []byte, i int) bool {
	return i < len(b) && i >= -1 && v.Forall(func(k int) bool { return !(0 <= k && k <= i) || o[len(b)-1-k] == b[k] })
}

//verif:inv target=SwapEndianness
func inv_swapDone2(b, o []byte, i int) bool {
	return i <= len(b) && i >= 0 && v.Forall(func(k int) bool { return !(0 <= k && k < i) || o[len(b)-1-k] == b[k] })
}

//verif:inv target=SwapEndianness
func inv_swapDone3(b, o []byte, i int) bool {
	return i <= len(b) && i >= 0 && v.Forall(func(k int) bool { return !(0 <= k && k < i) || o[k] == b[len(b)-1-k] })
}

//verif:inv target=SwapEndianness
func inv_swapDone4(b, o []byte, i int) bool {
	return i < len(b) && i >= -1 && v.Forall(func(k int) bool { return !(0 <= k && k <= i) || o[k] == b[len(b)-1-k] })
}

//verif:contract prop=C08 target=SwapEndianness
func vc_SwapEndianness(b []byte, k int) {
	v.Requires(0 <= k && k < len(b))
	r := SwapEndianness(b)
	v.Ensures("same length", len(r) == len(b))
	v.Ensures("reversed", r[k] == b[len(b)-1-k])
}

//verif:contract prop=C08
func vc_SwapTwice(a [32]byte) {
	r := SwapEndianness(SwapEndianness(a[:]))
	v.Ensures("reversing twice is the identity", len(r) == 32)
	for i := 0; i < 32; i++ {
		v.Ensures("reversing twice is the identity", r[i] == a[i])
	}
}

//verif:contract prop=C08
func vc_Uint16(u uint16) {
	b := Uint16ToBytes(u)
	v.Ensures("little endian", len(b) == 2 && b[0] == byte(u) && b[1] == byte(u>>8))
	r := BytesToUint16(b)
	v.Ensures("round trip", r == u)
}

//verif:contract prop=C08
func vc_Uint32(u uint32) {
	b := Uint32ToBytes(u)
	v.Ensures("little endian", len(b) == 4 && b[0] == byte(u) && b[1] == byte(u>>8) && b[2] == byte(u>>16) && b[3] == byte(u>>24))
	r := BytesToUint32(b)
	v.Ensures("round trip", r == u)
}

//verif:contract prop=C08
func vc_Uint32Eth(u uint32) {
	b := Uint32ToEthBytes(u)
	v.Ensures("big endian", len(b) == 4 && b[3] == byte(u) && b[2] == byte(u>>8) && b[1] == byte(u>>16) && b[0] == byte(u>>24))
	r := EthBytesToUint32(b)
	v.Ensures("round trip", r == u)
}

//verif:contract prop=C08 target=Uint64ToEthBytes use
func vc_Uint64Eth(u uint64) {
	b := Uint64ToEthBytes(u)
	v.Ensures("8 bytes", len(b) == 8)
	for i := 0; i < 8; i++ {
		v.Ensures("big endian", b[7-i] == byte(u>>(8*uint(i))))
	}
}

//verif:contract prop=C08
func vc_Uint64EthBack(u uint64) {
	r := EthBytesToUint64(Uint64ToEthBytes(u))
	v.Ensures("round trip", r == u)
}

//verif:contract prop=C08
func vc_BytesToUint16(b []byte) {
	v.Requires(len(b) >= 2)
	v.Ensures("little endian", BytesToUint16(b) == uint16(b[0])|uint16(b[1])<<8)
}
