package merkletree

import (
	"bufio"
	"io"

	"github.com/iden3/go-iden3-core/db"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// a writer any write of which may fail, and a reader of given bytes
type absBuf struct{ data []byte }

func (w *absBuf) Write(b []byte) (int, error) {
	if v.AnyBool("write fails") {
		return 0, v.AnyErr("write failure")
	}
	w.data = append(w.data, b...)
	return len(b), nil
}

type absSrc struct {
	data []byte
	off  int
}

func (s *absSrc) Read([]byte) (int, error) { panic("not modelled") }

func Abs_Writer() io.Writer { return &absBuf{} }

func Abs_Reader() io.Reader { return &absSrc{data: v.AnyBytes("source")} }

//verif:stub target=bufio.NewReader
func stub_NewReader(r io.Reader) *bufio.Reader {
	b := &bufio.Reader{}
	v.SetField(b, "rd", r)
	return b
}

//verif:stub target=io.ReadFull
func stub_ReadFull(r io.Reader, b []byte) (int, error) {
	if br, ok := r.(*bufio.Reader); ok {
		r = v.Field(br, "rd").(io.Reader)
	}
	s := r.(*absSrc)
	left := len(s.data) - s.off
	if len(b) == 0 {
		return 0, nil
	}
	if left == 0 {
		return 0, io.EOF
	}
	if left < len(b) {
		s.off = len(s.data)
		return left, io.ErrUnexpectedEOF
	}
	copy(b, s.data[s.off:s.off+len(b)])
	s.off += len(b)
	return len(b), nil
}

func specRecord(k, val []byte) []byte {
	r := []byte{byte(len(k)), byte(len(val)), byte(len(val) >> 8)}
	r = append(r, k...)
	return append(r, val...)
}

//verif:contract prop=C30 target=serializeKV
func vc_serializeKV(w io.Writer, k, val []byte) {
	b := w.(*absBuf)
	v.Modifies(b)
	err := serializeKV(w, k, val)
	v.Ensures("lengths that do not fit are refused", err != nil || len(k) <= 0xff && len(val) <= 0xffff)
	v.Ensures("the record in its format", err != nil || v.BytesEq(b.data, specRecord(k, val)))
}

//verif:contract prop=C30
func vc_RecordRoundTrip(k, val, rest []byte) {
	v.Requires(len(k) <= 0xff && len(val) <= 0xffff)
	w := &absBuf{}
	if serializeKV(w, k, val) != nil {
		return
	}
	n := len(w.data)
	s := &absSrc{data: append(w.data, rest...)}
	k2, v2, err := deserializeKV(s)
	v.Ensures("readable", err == nil)
	v.Ensures("same lengths", len(k2) == len(k) && len(v2) == len(val))
	v.Ensures("same key", v.BytesEq(k2, k))
	v.Ensures("same value", v.BytesEq(v2, val))
	v.Ensures("nothing else is consumed", s.off == n)
}

//verif:contract prop=C30
func vc_RecordTruncated(k, val []byte, m int) {
	v.Requires(len(k) <= 0xff && len(val) <= 0xffff)
	w := &absBuf{}
	if serializeKV(w, k, val) != nil {
		return
	}
	v.Requires(0 <= m && m < len(w.data))
	s := &absSrc{data: w.data[:m]}
	_, _, err := deserializeKV(s)
	v.Ensures("a part of a record is not a record, nor the end", err != nil && (m == 0 || err != io.EOF))
	v.Ensures("nothing left is the end", m != 0 || err == io.EOF)
}

type impStore struct {
	hasRoot bool
	root    Hash
	commits int
	tx      *impTx
}

type impTx struct {
	s       *impStore
	hasRoot bool
	root    Hash
	others  int
}

func (s *impStore) Info() string                                         { return "" }
func (s *impStore) Close()                                               {}
func (s *impStore) WithPrefix([]byte) db.Storage                         { panic("not modelled") }
func (s *impStore) List(int) ([]db.KV, error)                            { panic("not modelled") }
func (s *impStore) Iterate(func([]byte, []byte) (bool, error)) error     { panic("not modelled") }
func (s *impStore) Get([]byte) ([]byte, error)                           { panic("not modelled") }
func (s *impStore) NewTx() (db.Tx, error) {
	if v.AnyBool("no transaction") {
		return nil, v.AnyErr("transaction failure")
	}
	return s.tx, nil
}
func (t *impTx) Get([]byte) ([]byte, error) { panic("not modelled") }
func (t *impTx) Close()                     {}
func (t *impTx) Add(db.Tx)                  { panic("not modelled") }
func (t *impTx) Put(k, b []byte) {
	if v.BytesEq(k, rootNodeValue) {
		v.Assert("the root is stored in its format", len(b) == 33 && b[0] == 3)
		t.hasRoot = true
		copy(t.root[:], b[1:])
		return
	}
	t.others++
}
func (t *impTx) Commit() error {
	if v.AnyBool("commit fails") {
		return v.AnyErr("commit failure")
	}
	t.s.commits++
	if t.hasRoot {
		t.s.hasRoot, t.s.root = true, t.root
	}
	return nil
}

//verif:inv target=MerkleTree.ImportTree
func inv_itOff(i io.Reader) bool {
	s := i.(*absSrc)
	return 0 <= s.off && s.off <= len(s.data)
}

//verif:contract prop=C30,C04 target=MerkleTree.ImportTree
func vc_ImportTree(mt *MerkleTree, i io.Reader) {
	s := &impStore{}
	v.Any(&s.root, "root")
	v.Any(&s.hasRoot, "hasRoot")
	s.tx = &impTx{s: s}
	mt.storage = s
	old, oldRoot, oldHas := *mt.rootKey, s.root, s.hasRoot
	v.Modifies(mt, s, s.tx, i.(*absSrc))
	err := mt.ImportTree(i)
	if err == nil {
		v.Ensures("the imported root is current, in memory and on disk", s.hasRoot && mt.rootKey != nil && s.root == *mt.rootKey)
		v.Ensures("committed at once", s.commits == 1)
		v.Ensures("all input is read", i.(*absSrc).off == len(i.(*absSrc).data))
	} else {
		v.Ensures("a refused dump changes nothing", s.commits == 0 && s.root == oldRoot && s.hasRoot == oldHas && *mt.rootKey == old)
	}
}
