seed('c05-long-leaf', 'C05', 'merkletree',
 [('merkletree/node.go', 'if len(b) != DataLen*ElemBytesLen {', 'if len(b) < DataLen*ElemBytesLen {')],
 '''package merkletree
import "testing"
func TestDemo(t *testing.T) {
	b := make([]byte, 1+256+32)
	b[0] = 1
	if _, err := NewNodeFromBytes(b); err == nil { t.Fatal("leaf with trailing bytes accepted") }
}
''', 'leaf bytes with something after the eight elements', 'decoding yields a leaf that encodes to different bytes')
seed('c07-last-element', 'C07', 'core/claims',
 [('core/claims/claim_types.go', 'for _, elemBytes := range e.Data {', 'for _, elemBytes := range e.Data[:merkletree.DataLen-1] {')],
 '''package claims
import ("testing"; "github.com/iden3/go-iden3-core/merkletree")
func TestDemo(t *testing.T) {
	var d merkletree.Data
	for i := range d[7] { d[7][i] = 0xff }
	if _, err := NewClaimFromEntry(&merkletree.Entry{Data: d}); err == nil { t.Fatal("element outside the field accepted") }
}
''', 'only the last element of the entry is outside the field', 'claim parsing accepts an element that is not below the field order')
seed('c08-set-twice', 'C08', 'common',
 [('common/common.go', 'bitmap[uint(len(bitmap))-n/8-1] |= 1 << (n % 8)', 'bitmap[uint(len(bitmap))-n/8-1] ^= 1 << (n % 8)')],
 '''package common
import "testing"
func TestDemo(t *testing.T) {
	b := make([]byte, 4)
	SetBitBigEndian(b, 9)
	SetBitBigEndian(b, 9)
	if !TestBitBigEndian(b, 9) { t.Fatal("bit 9 is not set") }
}
''', 'setting a bit that is already set', 'setting a bit clears it')
seed('c09-odd-digits', 'C09', 'common',
 [('common/common.go', '''	n, err := hex.Decode(dst, h)
	if err != nil {
		return err
	} else if n != len(dst) {
		return fmt.Errorf("expected %v bytes when decoding hex string, got %v", len(dst), n)
	}
	return nil''', '''	if _, err := hex.Decode(dst, h); err != nil && err != hex.ErrLength {
		return err
	}
	return nil''')],
 '''package common
import "testing"
func TestDemo(t *testing.T) {
	var d [2]byte
	if err := HexDecodeInto(d[:], []byte("0x01020")); err == nil { t.Fatal("text of two and a half bytes accepted") }
}
''', 'a text with an odd number of digits, one more than fits', 'decoding into a fixed-size destination accepts text that is not of that size')
seed('c10-key-type', 'C10', 'core/claims',
 [('core/claims/claimKeyBabyJub.go', 'c.KeyType = BabyJubKeyType(binary.BigEndian.Uint64(e.Data[1][:]))', 'c.KeyType = BabyJubKeyType(binary.BigEndian.Uint16(e.Data[1][6:]))')],
 '''package claims
import ("testing"; "math/big"; "github.com/iden3/go-iden3-crypto/babyjub")
func TestDemo(t *testing.T) {
	c := NewClaimKeyBabyJub(&babyjub.PublicKey{X: big.NewInt(7), Y: big.NewInt(9)}, 1<<40+1)
	p, err := NewClaimFromEntry(c.Entry())
	if err != nil || p.(*ClaimKeyBabyJub).KeyType != 1<<40+1 { t.Fatal(p, err) }
}
''', 'a key type above 65535', 'the parsed claim has another key type')
seed('c11-expiration', 'C11', 'core/claims',
 [('core/claims/claim.go', '''	index := e.Index()
	value := e.Value()
	if m.header.Subject != ClaimSubjectSelf {
		m.Subject = &core.ID{}
	}
	if m.header.Subject != ClaimSubjectSelf {''', '''	index := e.Index()
	value := e.Value()
	if m.header.Subject == ClaimSubjectOtherIden || m.header.Subject == ClaimSubjectObject {
		m.Subject = &core.ID{}
	}
	if m.header.Subject != ClaimSubjectSelf {''')],
 '''package claims
import ("testing"; "github.com/iden3/go-iden3-core/merkletree")
func TestDemo(t *testing.T) {
	var e merkletree.Entry
	e.Data[0][8] = 3
	var m Metadata
	m.Unmarshal(&e)
}
''', 'an entry whose two subject bits are both set, as only an adversary writes', 'reading the metadata crashes')
seed('c12-carry', 'C12', 'core',
 [('core/id.go', 'checksum[0] = byte(s >> 8)', 'checksum[0] = byte(s>>8) & 0x0f')],
 '''package core
import "testing"
func TestDemo(t *testing.T) {
	var g [27]byte
	for i := range g { g[i] = 0xff }
	id := NewID([2]byte{0xff, 0xff}, g)
	if id[29] != 0x1c || id[30] != 0xe3 { t.Fatalf("%x", id) }
}
''', 'bytes that add up to more than 4095', 'the checksum is not the sum of the bytes')
