package claims

import (
	"math/big"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
	v "github.com/iden3/go-iden3-core/zzverif"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"github.com/iden3/go-iden3-crypto/constants"
)

// the first 12 bytes of an entry
func specHeader(h ClaimHeader, d merkletree.Data) merkletree.Data {
	for i := 0; i < 8; i++ {
		d[0][i] = h.Type[i]
	}
	f := byte(h.Subject) | byte(h.SubjectPos)<<2
	if h.Expiration {
		f |= 8
	}
	if h.Version {
		f |= 16
	}
	d[0][8] = f
	return d
}

// the entry data after writing metadata m over d: only the bytes of the fields in use change
func specMeta(m Metadata, id core.ID, d merkletree.Data) merkletree.Data {
	d = specHeader(m.header, d)
	if m.header.Subject != ClaimSubjectSelf {
		for i := 0; i < 31; i++ {
			if m.header.SubjectPos == ClaimSubjectPosIndex {
				d[1][i] = id[i]
			} else {
				d[5][i] = id[i]
			}
		}
	}
	if m.header.Version {
		for i := 0; i < 4; i++ {
			d[0][12+i] = byte(m.Version >> uint(8*i))
		}
	}
	if m.header.Expiration {
		for i := 0; i < 8; i++ {
			d[4][4+i] = byte(uint64(m.Expiration) >> uint(8*i))
		}
	}
	for i := 0; i < 4; i++ {
		d[4][i] = byte(m.RevNonce >> uint(8*i))
	}
	return d
}

func specU32(e [32]byte, o int) uint32 {
	return uint32(e[o]) | uint32(e[o+1])<<8 | uint32(e[o+2])<<16 | uint32(e[o+3])<<24
}

func specU64(e [32]byte, o int) uint64 {
	return uint64(specU32(e, o)) | uint64(specU32(e, o+4))<<32
}

func specValidHeader(h ClaimHeader) bool {
	return byte(h.Subject) < 4 && byte(h.SubjectPos) < 2
}

//verif:contract prop=C11 target=ClaimHeader.Marshal
func vc_HeaderMarshal(c ClaimHeader, e *merkletree.Entry) {
	v.Requires(specValidHeader(c))
	old := e.Data
	v.Modifies(&e.Data)
	c.Marshal(e)
	v.Ensures("type and flags are written, nothing else", e.Data == specHeader(c, old))
}

//verif:contract prop=C11 target=ClaimHeader.Unmarshal
func vc_HeaderUnmarshal(c *ClaimHeader, e *merkletree.Entry) {
	v.Modifies(c)
	c.Unmarshal(e)
	f := e.Data[0][8]
	for i := 0; i < 8; i++ {
		v.Ensures("type is read", c.Type[i] == e.Data[0][i])
	}
	v.Ensures("subject kind is read", byte(c.Subject) == f&3)
	v.Ensures("subject position is read", byte(c.SubjectPos) == f>>2&1)
	v.Ensures("expiration flag is read", c.Expiration == (f>>3&1 == 1))
	v.Ensures("version flag is read", c.Version == (f>>4&1 == 1))
}

//verif:contract prop=C11 target=Metadata.Marshal
func vc_MetadataMarshal(m Metadata, id core.ID, e *merkletree.Entry) {
	v.Requires(specValidHeader(m.header))
	m.Subject = &id
	old := e.Data
	v.Modifies(&e.Data)
	m.Marshal(e)
	v.Ensures("exactly the fields in use are written", e.Data == specMeta(m, id, old))
}

//verif:contract prop=C11
func vc_MetadataMarshalSelf(m Metadata, e *merkletree.Entry) {
	v.Requires(specValidHeader(m.header) && m.header.Subject == ClaimSubjectSelf)
	m.Subject = nil
	old := e.Data
	v.Modifies(&e.Data)
	m.Marshal(e)
	v.Ensures("a claim about the issuer needs no subject", e.Data == specMeta(m, core.ID{}, old))
}

//verif:contract prop=C11 target=Metadata.Unmarshal
func vc_MetadataUnmarshal(e *merkletree.Entry) {
	var m Metadata
	m.Unmarshal(e)
	f := e.Data[0][8]
	v.Ensures("nonce is read", m.RevNonce == specU32(e.Data[4], 0) && m.RevNonce == GetRevocationNonce(e))
	v.Ensures("version is read when flagged", m.Version == specU32(e.Data[0], 12) || f>>4&1 == 0 && m.Version == 0)
	v.Ensures("version is only read when flagged", f>>4&1 == 1 || m.Version == 0)
	v.Ensures("expiration is read when flagged", m.Expiration == int64(specU64(e.Data[4], 4)) || f>>3&1 == 0)
	v.Ensures("expiration is only read when flagged", f>>3&1 == 1 || m.Expiration == 0)
	v.Ensures("a subject is read when there is one", (m.Subject != nil) == (f&3 != 0))
	v.Ensures("type", m.Type() == m.Header().Type)
	if m.Subject != nil {
		for i := 0; i < 31; i++ {
			w := e.Data[1][i]
			if f>>2&1 == 1 {
				w = e.Data[5][i]
			}
			v.Ensures("the subject is read from its position", m.Subject[i] == w)
		}
	}
}

//verif:contract prop=C11
func vc_MetadataRoundTrip(m Metadata, id core.ID, e *merkletree.Entry) {
	v.Requires(specValidHeader(m.header))
	m.Subject = &id
	v.Modifies(&e.Data)
	m.Marshal(e)
	var r Metadata
	r.Unmarshal(e)
	v.Ensures("header survives", r.Header() == m.Header() && r.Type() == m.header.Type)
	v.Ensures("nonce survives", r.RevNonce == m.RevNonce && GetRevocationNonce(e) == m.RevNonce)
	v.Ensures("version survives", !m.header.Version || r.Version == m.Version)
	v.Ensures("expiration survives", !m.header.Expiration || r.Expiration == m.Expiration)
	v.Ensures("subject survives", m.header.Subject == ClaimSubjectSelf || r.Subject != nil && *r.Subject == id)
}

//verif:contract prop=C11 target=GetRevocationNonce use
func vc_GetRevocationNonce(e *merkletree.Entry) {
	n := GetRevocationNonce(e)
	v.Ensures("first four bytes of the value", n == specU32(e.Data[4], 0))
}

// ---------------------------------------------------------------- claims

//verif:contract prop=C10
func vc_BasicRoundTrip(is [IndexSlotLen]byte, vs [ValueSlotLen]byte, nonce uint32) {
	c := NewClaimBasic(is, vs)
	c.Metadata().RevNonce = nonce
	e := c.Entry()
	d := e.Data
	v.Ensures("fits the field", merkletree.SpecDataInField(d))
	p, err := NewClaimFromEntry(e)
	v.Ensures("is parsed", err == nil)
	b, ok := p.(*ClaimBasic)
	v.Ensures("as the same type", ok && b.Metadata().Type() == ClaimTypeBasic)
	v.Ensures("with the same index data", b.IndexSlot == is)
	v.Ensures("with the same value data", b.ValueSlot == vs)
	v.Ensures("with the same nonce", b.Metadata().RevNonce == nonce && b.Metadata().Header() == ClaimHeaderBasic)
	v.Ensures("the same entry again", p.Entry().Data == d)
	v.Ensures("parsing leaves the entry alone", e.Data == d)
	v.Ensures("data stays out of the header", d == specMeta(Metadata{header: ClaimHeaderBasic, RevNonce: nonce}, core.ID{}, d))
}

//verif:contract prop=C10
func vc_OtherIdenRoundTrip(id core.ID, is [IndexSubjectSlotLen]byte, vs [ValueSlotLen]byte, nonce uint32) {
	c := NewClaimOtherIden(&id, is, vs)
	c.Metadata().RevNonce = nonce
	e := c.Entry()
	d := e.Data
	v.Ensures("fits the field", merkletree.SpecDataInField(d))
	p, err := NewClaimFromEntry(e)
	v.Ensures("is parsed", err == nil)
	b, ok := p.(*ClaimOtherIden)
	v.Ensures("as the same type", ok && b.Metadata().Type() == ClaimTypeOtherIden)
	v.Ensures("with the same subject", b.Metadata().Subject != nil && *b.Metadata().Subject == id)
	v.Ensures("with the same index data", b.IndexSlot == is)
	v.Ensures("with the same value data", b.ValueSlot == vs)
	v.Ensures("with the same nonce", b.Metadata().RevNonce == nonce && b.Metadata().Header() == ClaimHeaderOtherIden)
	v.Ensures("the same entry again", p.Entry().Data == d)
	v.Ensures("data stays out of the header", d == specMeta(Metadata{header: ClaimHeaderOtherIden, RevNonce: nonce}, id, d))
}

func specKeyData(c *ClaimKeyBabyJub) (d merkletree.Data) {
	for i := 0; i < 8; i++ {
		d[1][i] = byte(uint64(c.KeyType) >> uint(56-8*i))
	}
	d[2] = merkletree.ElemBytes(merkletree.SpecElem(c.Ax))
	d[3] = merkletree.ElemBytes(merkletree.SpecElem(c.Ay))
	return specMeta(c.metadata, core.ID{}, d)
}

//verif:contract prop=C10 target=ClaimKeyBabyJub.Entry use
func vc_KeyEntry(c *ClaimKeyBabyJub) {
	v.Requires(c.metadata.header == ClaimHeaderKeyBabyJub)
	e := c.Entry()
	v.Ensures("header, key type and coordinates in their elements", e != nil && e.Data == specKeyData(c))
}

//verif:contract prop=C10
func vc_KeyRoundTrip(x, y *big.Int, t uint64, nonce uint32) {
	v.Requires(x.Cmp(constants.Q) < 0 && y.Cmp(constants.Q) < 0)
	c := NewClaimKeyBabyJub(&babyjub.PublicKey{X: x, Y: y}, BabyJubKeyType(t))
	c.Metadata().RevNonce = nonce
	e := c.Entry()
	d := e.Data
	v.Ensures("the x coordinate is its element", d[2] == merkletree.ElemBytes(merkletree.SpecElem(x)))
	v.Ensures("the y coordinate is its element", d[3] == merkletree.ElemBytes(merkletree.SpecElem(y)))
	v.Ensures("fits the field", merkletree.SpecDataInField(d))
	p, err := NewClaimFromEntry(e)
	v.Ensures("is parsed", err == nil)
	b, ok := p.(*ClaimKeyBabyJub)
	v.Ensures("as the same type", ok && b.Metadata().Type() == ClaimTypeKeyBabyJub)
	v.Ensures("with the same key", b.Ax.Cmp(x) == 0 && b.Ay.Cmp(y) == 0)
	v.Ensures("with the same key type", b.KeyType == BabyJubKeyType(t))
	v.Ensures("with the same nonce", b.Metadata().RevNonce == nonce && b.Metadata().Header() == ClaimHeaderKeyBabyJub)
	v.Ensures("the same entry again", p.Entry().Data == d)
	v.Ensures("data stays out of the header", d == specMeta(Metadata{header: ClaimHeaderKeyBabyJub, RevNonce: nonce}, core.ID{}, d))
}

//verif:contract prop=C10
func vc_GenericRoundTrip(e *merkletree.Entry) {
	d := e.Data
	// an entry without unused flag bits, as every claim writes it
	v.Requires(d[0][8]&0xe0 == 0)
	c := NewClaimGeneric(e)
	v.Ensures("the same entry again", c.Entry().Data == d)
	v.Ensures("the entry it was made from is left alone", e.Data == d)
	v.Ensures("with its nonce", c.Metadata().RevNonce == specU32(d[4], 0))
}

//verif:contract prop=C10
func vc_LeafRoots(root merkletree.Hash) {
	e := NewLeafRootsTree(root).Entry()
	v.Ensures("the root is the first element", e.Data == merkletree.Data{merkletree.ElemBytes(root)})
	v.Ensures("round trip", NewLeafRootsTreeFromEntry(e).Root == root)
}

//verif:contract prop=C10
func vc_LeafRevocations(nonce, version uint32) {
	l := NewLeafRevocationsTree(nonce, version)
	e := l.Entry()
	d := e.Data
	r := NewLeafRevocationsTreeFromEntry(e)
	v.Ensures("round trip", r.Nonce == nonce && r.Version == version)
	v.Ensures("the same entry again", r.Entry().Data == d)
	v.Ensures("fits the field", merkletree.SpecDataInField(d))
	v.Ensures("nonce in the index, version in the value", specU32(d[0], 0) == nonce && specU32(d[4], 0) == version)
}

//verif:contract prop=C07 target=NewClaimFromEntry
func vc_NewClaimFromEntry(e *merkletree.Entry) {
	d := e.Data
	p, err := NewClaimFromEntry(e)
	in := merkletree.SpecDataInField(d)
	v.Ensures("entries outside the field are refused", in || err != nil)
	var t ClaimType
	for i := 0; i < 8; i++ {
		t[i] = d[0][i]
	}
	known := t == ClaimTypeBasic || t == ClaimTypeKeyBabyJub || t == ClaimTypeOtherIden
	v.Ensures("known types inside the field are accepted", !in || (err == nil) == known)
	v.Ensures("claim or error", (err == nil) == (p != nil))
	v.Ensures("other types are reported as such", !in || known || err == ErrInvalidClaimType)
}
