package merkletree

import (
	v "github.com/iden3/go-iden3-core/zzverif"
)

//verif:contract prop=C09
func vc_HashText(h Hash) {
	t, err := h.MarshalText()
	v.Ensures("marshalling succeeds", err == nil && len(t) == 66)
	var r Hash
	v.Any(&r, "previous")
	err = r.UnmarshalText(t)
	v.Ensures("text decodes to the same hash", err == nil && r == h)
	err = r.UnmarshalText([]byte(h.Hex()))
	v.Ensures("the hex form decodes to the same hash", err == nil && r == h)
}

//verif:contract prop=C09 target=Hash.UnmarshalText
func vc_HashUnmarshal(h *Hash, t []byte) {
	n := len(t)
	if n >= 2 && t[0] == '0' && t[1] == 'x' {
		n -= 2
	}
	v.Modifies(h)
	err := h.UnmarshalText(t)
	v.Ensures("only text of 32 bytes is accepted", err != nil || n == 64)
}

//verif:contract prop=C09
func vc_DataText(d Data) {
	t, err := d.MarshalText()
	v.Ensures("marshalling succeeds", err == nil)
	var r Data
	v.Any(&r, "previous")
	err = r.UnmarshalText(t)
	v.Ensures("text decodes to the same data", err == nil && r == d)
}

//verif:contract prop=C09 target=Data.UnmarshalText
func vc_DataUnmarshal(d *Data, t []byte) {
	n := len(t)
	if n >= 2 && t[0] == '0' && t[1] == 'x' {
		n -= 2
	}
	old := *d
	v.Modifies(d)
	err := d.UnmarshalText(t)
	v.Ensures("only text of 256 bytes is accepted", err != nil || n == 512)
	v.Ensures("refused text leaves the data alone", err == nil || *d == old)
}

//verif:contract prop=C09
func vc_EntryText(d, old Data) {
	e := &Entry{Data: d}
	t, err := e.MarshalText()
	v.Ensures("marshalling succeeds", err == nil)
	r := &Entry{Data: old}
	hi, hv, errOld := r.HiHv() // the reused object remembers its old hashes
	_, _, _ = hi, hv, errOld
	err = r.UnmarshalText(t)
	v.Ensures("text decodes to the same entry", err == nil && r.Data == d)
	h, err := r.HIndex()
	v.Ensures("the index hash is that of the new content", err != nil || *h == specHi(d))
	h, err = r.HValue()
	v.Ensures("the value hash is that of the new content", err != nil || *h == specHv(d))
}

//verif:contract prop=C09 target=Entry.UnmarshalText
func vc_EntryUnmarshal(d Data, t []byte) {
	n := len(t)
	if n >= 2 && t[0] == '0' && t[1] == 'x' {
		n -= 2
	}
	e := &Entry{Data: d}
	err := e.UnmarshalText(t)
	v.Ensures("only text of 256 bytes is accepted", err != nil || n == 512)
}
