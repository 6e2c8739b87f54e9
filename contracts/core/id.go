package core

import (
	"github.com/iden3/go-iden3-core/merkletree"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// checksum of the first 29 bytes: 16-bit sum, most significant byte first
func specSum(b [29]byte) uint16 {
	s := uint16(0)
	for i := 0; i < 29; i++ {
		s += uint16(b[i])
	}
	return s
}

func specTG(typ [2]byte, genesis [27]byte) (b [29]byte) {
	for i := 0; i < 2; i++ {
		b[i] = typ[i]
	}
	for i := 0; i < 27; i++ {
		b[2+i] = genesis[i]
	}
	return
}

// an identifier that parses: right, non-zero checksum
func specValidID(id [31]byte) bool {
	var b [29]byte
	for i := 0; i < 29; i++ {
		b[i] = id[i]
	}
	s := specSum(b)
	return s != 0 && id[29] == byte(s>>8) && id[30] == byte(s)
}

//verif:contract prop=C12 target=CalculateChecksum use
func vc_CalculateChecksum(typ [2]byte, genesis [27]byte) {
	s := specSum(specTG(typ, genesis))
	r := CalculateChecksum(typ, genesis)
	v.Ensures("checksum is the 16-bit byte sum, most significant byte first", r[0] == byte(s>>8) && r[1] == byte(s))
}

//verif:contract prop=C12 target=NewID use
func vc_NewID(typ [2]byte, genesis [27]byte) {
	tg := specTG(typ, genesis)
	s := specSum(tg)
	id := NewID(typ, genesis)
	for i := 0; i < 29; i++ {
		v.Ensures("identifier starts with type and genesis", id[i] == tg[i])
	}
	v.Ensures("identifier ends with the checksum", id[29] == byte(s>>8) && id[30] == byte(s))
}

//verif:contract prop=C12 target=DecomposeID
func vc_DecomposeID(id ID) {
	t, g, c, err := DecomposeID(id)
	v.Ensures("no error", err == nil)
	tg := specTG(t, g)
	for i := 0; i < 29; i++ {
		v.Ensures("parts are the identifier's bytes", id[i] == tg[i])
	}
	v.Ensures("checksum part", id[29] == c[0] && id[30] == c[1])
}

//verif:contract prop=C12 target=CheckChecksum use
func vc_CheckChecksum(id ID) {
	r := CheckChecksum(id)
	v.Ensures("accepted exactly when the checksum is right and not zero", r == specValidID(id))
}

//verif:contract prop=C12 target=IDFromBytes use spare
func vc_IDFromBytes(b []byte) {
	in := append([]byte{}, b...)
	id, err := IDFromBytes(b)
	if len(in) != 31 {
		v.Ensures("wrong length is refused", err != nil)
		return
	}
	var a [31]byte
	copy(a[:], in)
	v.Ensures("accepted exactly when the checksum is right", (err == nil) == specValidID(a))
	if err == nil {
		v.Ensures("parsing yields the same bytes", id == ID(a))
	}
}

//verif:contract prop=C12
func vc_IDStringRoundTrip(id ID) {
	s := id.String()
	got, err := IDFromString(s)
	v.Ensures("a valid identifier parses back from its text", !specValidID(id) || (err == nil && got == id))
	v.Ensures("an invalid identifier's text is refused", specValidID(id) || err != nil)
}

//verif:contract prop=C12
func vc_IDTextRoundTrip(id ID) {
	t, err := id.MarshalText()
	v.Ensures("marshalling succeeds", err == nil)
	var got ID
	v.Any(&got, "previous")
	err = got.UnmarshalText(t)
	v.Ensures("a valid identifier parses back from its text", !specValidID(id) || (err == nil && got == id))
}

//verif:contract prop=C12 target=IDFromString
func vc_IDFromString(s string) {
	id, err := IDFromString(s)
	v.Ensures("only valid identifiers are returned", err != nil || specValidID(id))
}

//verif:contract prop=C12
func vc_NewIDParses(typ [2]byte, genesis [27]byte) {
	id := NewID(typ, genesis)
	got, err := IDFromBytes(id[:])
	s := specSum(specTG(typ, genesis))
	v.Ensures("a created identifier with non-zero bytes parses to itself", (s == 0) == (err != nil) && (err != nil || got == id))
}

//verif:contract prop=C12
func vc_IDEqual(a, b ID) {
	e1 := a.Equal(&b)
	e2 := a.Equals(&b)
	v.Ensures("equality is equality of all bytes", e1 == (a == b) && e2 == (a == b))
}

// ---- identity states (C13)

//verif:contract prop=C13 target=CalculateIdenState use
func vc_CalculateIdenState(clr, rer, ror *merkletree.Hash) {
	a, b, c := *clr, *rer, *ror
	s, err := CalculateIdenState(clr, rer, ror)
	want, ok := merkletree.SpecH3(a, b, c)
	v.Ensures("refused exactly when a root is outside the field", (err == nil) == ok)
	v.Ensures("state or error", (err == nil) == (s != nil))
	if err == nil {
		v.Ensures("the hash of claims, revocations and roots root, in that order", *s == want)
	}
	v.Ensures("arguments unchanged", *clr == a && *rer == b && *ror == c)
}

//verif:contract prop=C13 target=IdenState use
func vc_IdenState(clr, rer, ror *merkletree.Hash) {
	want, ok := merkletree.SpecH3(*clr, *rer, *ror)
	v.Requires(ok)
	s := IdenState(clr, rer, ror)
	v.Ensures("the hash of claims, revocations and roots root, in that order", s != nil && *s == want)
}

func SpecGenesisID(st merkletree.Hash) ID {
	var g [27]byte
	for i := 0; i < 27; i++ {
		g[i] = st[5+i]
	}
	var id ID
	b := specTG([2]byte{}, g)
	s := specSum(b)
	for i := 0; i < 29; i++ {
		id[i] = b[i]
	}
	id[29], id[30] = byte(s>>8), byte(s)
	return id
}

//verif:contract prop=C13 target=IdGenesisFromIdenState use
func vc_IdGenesisFromIdenState(st *merkletree.Hash) {
	h := *st
	id := IdGenesisFromIdenState(st)
	v.Ensures("an identifier", id != nil)
	v.Ensures("default type and the last 27 bytes of the state", id[0] == 0 && id[1] == 0)
	for i := 0; i < 27; i++ {
		v.Ensures("default type and the last 27 bytes of the state", id[2+i] == h[5+i])
	}
	v.Ensures("the checksum of these", *id == SpecGenesisID(h))
}
