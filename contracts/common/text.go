package common

import (
	v "github.com/iden3/go-iden3-core/zzverif"
)

//verif:contract prop=C09
func vc_HexRoundTrip(b []byte) {
	s := HexEncode(b)
	r, err := HexDecode(s)
	v.Ensures("encoded hex decodes to the same bytes", err == nil && v.BytesEq(r, b))
	v.Ensures("encoded hex starts with 0x", len(s) == 2+2*len(b) && s[0] == '0' && s[1] == 'x')
	r, err = HexDecode(s[2:])
	v.Ensures("also without the 0x prefix", err == nil && v.BytesEq(r, b))
}

//verif:contract prop=C09 target=HexDecode
func vc_HexDecode(s string) {
	r, err := HexDecode(s)
	n := len(s)
	if n >= 2 && s[0] == '0' && s[1] == 'x' {
		n -= 2
	}
	v.Ensures("two digits per byte", err != nil || 2*len(r) == n)
}

//verif:contract prop=C09 target=HexDecodeInto spare
func vc_HexDecodeInto(dst, h []byte) {
	n := len(h)
	if n >= 2 && h[0] == '0' && h[1] == 'x' {
		n -= 2
	}
	v.Modifies(dst)
	err := HexDecodeInto(dst, h)
	v.Ensures("only text of exactly the destination's size is accepted", err != nil || n == 2*len(dst))
}

//verif:contract prop=C09
func vc_HexDecodeIntoRoundTrip(b, dst []byte) {
	s := HexEncode(b)
	v.Modifies(dst)
	err := HexDecodeInto(dst, []byte(s))
	v.Ensures("accepted exactly when the sizes agree", (err == nil) == (len(dst) == len(b)))
	v.Ensures("decodes to the same bytes", err != nil || v.BytesEq(dst, b))
}

//verif:contract prop=C09
func vc_HexDecodeIntoPlain(b, dst []byte) {
	s := HexEncode(b)[2:]
	v.Modifies(dst)
	err := HexDecodeInto(dst, []byte(s))
	v.Ensures("accepted exactly when the sizes agree", (err == nil) == (len(dst) == len(b)))
	v.Ensures("decodes to the same bytes", err != nil || v.BytesEq(dst, b))
}

//verif:contract prop=C09 target=Hex.UnmarshalText
func vc_HexTypeUnmarshal(t []byte) {
	var x Hex
	v.Any(&x, "previous")
	err := x.UnmarshalText(t)
	v.Ensures("two digits per byte", err != nil || 2*len(x) == len(t))
}

//verif:contract prop=C09
func vc_HexTypeRoundTrip(b []byte) {
	t, err := Hex(b).MarshalText()
	v.Ensures("marshalling succeeds", err == nil)
	var x Hex
	v.Any(&x, "previous")
	err = x.UnmarshalText(t)
	v.Ensures("text decodes to the same bytes", err == nil && v.BytesEq(x, b))
	v.Ensures("the printed form is the text", Hex(b).String() == string(t))
}

//verif:contract prop=C09
func vc_Base64RoundTrip(b []byte) {
	s := BytesToBase64(b)
	r, err := Base64ToBytes(s)
	v.Ensures("encoded base64 decodes to the same bytes", err == nil && v.BytesEq(r, b))
	r, err = Base64Decode(s)
	v.Ensures("also with optional padding", err == nil && v.BytesEq(r, b))
}

//verif:contract prop=C09 target=Base64Decode
func vc_Base64Decode(s string) {
	_, err := Base64Decode(s)
	_ = err
	v.Ensures("returns", true)
}
