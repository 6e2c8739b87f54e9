package merkletree

import (
	v "github.com/iden3/go-iden3-core/zzverif"
)

func specDataBytes(d Data) (b [256]byte) {
	for i := 0; i < 8; i++ {
		for j := 0; j < 32; j++ {
			b[32*i+j] = d[i][j]
		}
	}
	return
}

func specBytesData(b []byte) (d Data) {
	for i := 0; i < 8; i++ {
		for j := 0; j < 32; j++ {
			d[i][j] = b[32*i+j]
		}
	}
	return
}

//verif:contract prop=C05 target=Data.Bytes
func vc_DataBytes(d *Data) {
	b := d.Bytes()
	v.Ensures("the elements in order", b == specDataBytes(*d))
}

//verif:contract prop=C05 target=NewDataFromBytes
func vc_NewDataFromBytes(b [256]byte) {
	d := NewDataFromBytes(b)
	v.Ensures("the elements in order", *d == specBytesData(b[:]))
}

//verif:contract prop=C05 target=NewEntryFromBytes spare
func vc_NewEntryFromBytes(b []byte) {
	in := v.Old(b).([]byte)
	e, err := NewEntryFromBytes(b)
	v.Ensures("accepted exactly when 256 bytes long", (err == nil) == (len(in) == 256))
	v.Ensures("entry or error", (err == nil) == (e != nil))
	if err == nil {
		v.Ensures("the elements in order", e.Data == specBytesData(in))
		v.Ensures("encoding it again gives the same bytes", v.BytesEq(e.Bytes(), in))
		v.Ensures("no hash of other content is remembered", e.hIndex == nil && e.hValue == nil)
	}
}

//verif:contract prop=C05
func vc_EntryRoundTrip(d Data) {
	e := &Entry{Data: d}
	r, err := NewEntryFromBytes(e.Bytes())
	v.Ensures("an encoded entry decodes to the same entry", err == nil && r.Data == d && e.Data == d)
}

//verif:contract prop=C05 target=Entry.Clone
func vc_EntryClone(e *Entry) {
	d := e.Data
	c := e.Clone()
	v.Ensures("same data, nothing remembered", c.Data == d && c.hIndex == nil && c.hValue == nil)
}

//verif:contract prop=C05 target=NewNodeFromBytes spare
func vc_NewNodeFromBytes(b []byte) {
	in := v.Old(b).([]byte)
	n, err := NewNodeFromBytes(b)
	v.Ensures("node or error", (err == nil) == (n != nil))
	ok := (len(in) == 65 && in[0] == 0) || (len(in) == 257 && in[0] == 1) || (len(in) == 1 && in[0] == 2)
	v.Ensures("accepted exactly when the length fits the type", (err == nil) == ok)
	if err != nil {
		return
	}
	v.Ensures("the stated type", n.Type == NodeType(in[0]))
	v.Ensures("no key is remembered", n.key == nil)
	switch n.Type {
	case NodeTypeMiddle:
		v.Cover("middle node")
		var l, r Hash
		copy(l[:], in[1:33])
		copy(r[:], in[33:65])
		v.Ensures("the children in order", *n.ChildL == l && *n.ChildR == r)
		v.Ensures("encodes to the same bytes", v.BytesEq(n.Value(), in))
	case NodeTypeLeaf:
		v.Cover("leaf node")
		v.Ensures("the entry", n.Entry.Data == specBytesData(in[1:]) && n.Entry.hIndex == nil && n.Entry.hValue == nil)
		v.Ensures("encodes to the same bytes", v.BytesEq(n.Value(), in))
	default:
		v.Cover("empty node")
	}
}

//verif:contract prop=C05 target=Node.Value
func vc_ValueMiddle(l, r Hash) {
	n := NewNodeMiddle(&l, &r)
	b := n.Value()
	var w [65]byte
	for i := 0; i < 32; i++ {
		w[1+i] = l[i]
		w[33+i] = r[i]
	}
	v.Ensures("type and children in order", v.BytesEq(b, w[:]))
	v.Ensures("the node is unchanged", *n.ChildL == l && *n.ChildR == r)
}

//verif:contract prop=C05 target=Node.Value
func vc_ValueLeaf(d Data) {
	n := NewNodeLeaf(&Entry{Data: d})
	b := n.Value()
	var w [257]byte
	w[0] = 1
	x := specDataBytes(d)
	copy(w[1:], x[:])
	v.Ensures("type and elements in order", v.BytesEq(b, w[:]))
	v.Ensures("the node is unchanged", n.Entry.Data == d)
}

//verif:contract prop=C05 target=Node.Value
func vc_ValueEmpty() {
	b := NewNodeEmpty().Value()
	v.Ensures("nothing is stored for the empty node", len(b) == 0)
}

//verif:contract prop=C05
func vc_MiddleRoundTrip(l, r Hash) {
	n := NewNodeMiddle(&l, &r)
	k, err := n.Key()
	m, err2 := NewNodeFromBytes(n.Value())
	v.Ensures("an encoded middle node decodes", err2 == nil && m.Type == NodeTypeMiddle)
	v.Ensures("to the same children", *m.ChildL == l && *m.ChildR == r)
	k2, err3 := m.Key()
	v.Ensures("with the same key", (err == nil) == (err3 == nil) && (err != nil || *k == *k2))
}

//verif:contract prop=C05
func vc_LeafRoundTrip(d Data) {
	n := NewNodeLeaf(&Entry{Data: d})
	k, err := n.Key()
	m, err2 := NewNodeFromBytes(n.Value())
	v.Ensures("an encoded leaf decodes", err2 == nil && m.Type == NodeTypeLeaf)
	v.Ensures("to the same entry", m.Entry.Data == d)
	k2, err3 := m.Key()
	v.Ensures("with the same key", (err == nil) == (err3 == nil) && (err != nil || *k == *k2))
}

//verif:contract prop=C05
func vc_EntryEqual(a, b *Entry) {
	r := a.Equal(b)
	v.Ensures("equal exactly when all elements are", r == (a.Data == b.Data))
}
