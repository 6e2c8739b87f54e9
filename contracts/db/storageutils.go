package db

import (
	"crypto/sha256"

	v "github.com/iden3/go-iden3-core/zzverif"
)

// an open transaction: what it would store, seen through its own writes; any reading may fail
type absTx struct{ kv kvMap }

func Abs_Tx() Tx {
	t := &absTx{}
	v.Any(&t.kv, "stored")
	return t
}

func (t *absTx) Get(k []byte) ([]byte, error) {
	if v.AnyBool("unreadable") {
		e := v.AnyErr("read failure")
		v.Requires(e != ErrNotFound)
		return nil, e
	}
	x, ok := specAt(t.kv, k)
	if !ok {
		return nil, ErrNotFound
	}
	return x, nil
}
func (t *absTx) Put(k, x []byte) { t.kv[sha256.Sum256(k)] = KV{k, x} }
func (t *absTx) Add(Tx)          { panic("not modelled") }
func (t *absTx) Commit() error   { panic("not modelled") }
func (t *absTx) Close()          {}

type absStore struct{ kv kvMap }

func Abs_Storage() Storage {
	s := &absStore{}
	v.Any(&s.kv, "stored")
	return s
}

func (s *absStore) Get(k []byte) ([]byte, error) { return (&absTx{s.kv}).Get(k) }
func (s *absStore) Info() string                 { return "" }
func (s *absStore) Close()                       {}
func (s *absStore) NewTx() (Tx, error)           { panic("not modelled") }
func (s *absStore) WithPrefix([]byte) Storage    { panic("not modelled") }
func (s *absStore) List(int) ([]KV, error)       { panic("not modelled") }
func (s *absStore) Iterate(func([]byte, []byte) (bool, error)) error {
	panic("not modelled")
}

// the JSON library taken as given: what it made of the value, what it was given to read
type absJSON struct {
	enc   []byte
	dec   []byte
	decs  int
	encOK bool
	decOK bool
}

//verif:stub target=encoding/json.Marshal
func stub_Marshal(x interface{}, js *absJSON) ([]byte, error) {
	if !js.encOK {
		return nil, v.AnyErr("not encodable")
	}
	return js.enc, nil
}

//verif:stub target=encoding/json.Unmarshal
func stub_Unmarshal(data []byte, x interface{}, js *absJSON) error {
	js.dec = data
	js.decs++
	if !js.decOK {
		e := v.AnyErr("not decodable")
		v.Requires(e != ErrNotFound)
		return e
	}
	return nil
}

func specLE(x uint32) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
}

func specNum(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

//verif:contract prop=C23 target=NewStorageValue
func vc_NewStorageValue(k []byte) {
	k0 := specCat(k, nil)
	s := NewStorageValue(k)
	v.Ensures("under its key", v.BytesEq(s.dbKey, k0))
}

//verif:contract prop=C23 target=StorageValue.Set
func vc_ValueSet(s *StorageValue, tx Tx, x uint32, k2 []byte) {
	t := tx.(*absTx)
	key := specCat(s.dbKey, nil)
	w, was := specAt(t.kv, k2)
	v.Modifies(t.kv)
	s.Set(tx, x)
	b, ok := specAt(t.kv, key)
	v.Ensures("the number is stored", ok && v.BytesEq(b, specLE(x)))
	r, is := specAt(t.kv, k2)
	v.Ensures("nothing else changes", v.BytesEq(k2, key) || is == was && (!is || v.BytesEq(r, w)))
}

//verif:contract prop=C23 target=StorageValue.Get
func vc_ValueGet(s *StorageValue, tx Tx) {
	t := tx.(*absTx)
	b, ok := specAt(t.kv, s.dbKey)
	v.Requires(!ok || len(b) == 4)
	x, err := s.Get(tx)
	v.Ensures("the stored number", err != nil || ok && x == specNum(b))
	v.Ensures("not found only when never set", err != ErrNotFound || !ok)
}

//verif:contract prop=C23
func vc_ValueRoundTrip(x uint32) {
	v.Ensures("a stored number reads back", specNum(specLE(x)) == x)
}

// the list as NewStorageList makes it
func specList(p []byte) *StorageList {
	return &StorageList{&StorageValue{specCat(p, []byte("len"))}, specCat(p, []byte("list:")), specCat(p, []byte("byidx:"))}
}

func specListOK(sl *StorageList, p []byte) bool {
	return v.BytesEq(sl.length.dbKey, specCat(p, []byte("len"))) &&
		v.BytesEq(sl.dbPrefixList, specCat(p, []byte("list:"))) &&
		v.BytesEq(sl.dbPrefixListByIdx, specCat(p, []byte("byidx:")))
}

//verif:contract prop=C23 target=NewStorageList spare
func vc_NewStorageList(p, q []byte) {
	p0 := specCat(p, nil)
	a := NewStorageList(p)
	b := NewStorageList(p[:len(p):cap(p)])
	v.Ensures("three ranges of keys under the prefix", specListOK(a, p0))
	v.Ensures("another list made from the same memory changes nothing", specListOK(a, p0) && specListOK(b, p0))
}

//verif:contract prop=C23 target=StorageList.Init
func vc_ListInit(tx Tx, p, k2 []byte) {
	t := tx.(*absTx)
	sl := specList(p)
	w, was := specAt(t.kv, k2)
	v.Modifies(t.kv)
	sl.Init(tx)
	b, ok := specAt(t.kv, specCat(p, []byte("len")))
	v.Ensures("an empty list", ok && v.BytesEq(b, specLE(0)))
	r, is := specAt(t.kv, k2)
	v.Ensures("nothing outside the list changes", v.BytesEq(k2, specCat(p, []byte("len"))) || is == was && (!is || v.BytesEq(r, w)))
}

//verif:contract prop=C23 target=StorageList.Length
func vc_ListLength(tx Tx, p []byte) {
	t := tx.(*absTx)
	sl := specList(p)
	b, ok := specAt(t.kv, specCat(p, []byte("len")))
	v.Requires(!ok || len(b) == 4)
	n, err := sl.Length(tx)
	v.Ensures("the stored length", err != nil || ok && n == specNum(b))
}

//verif:contract prop=C23 target=StorageList.Append
func vc_ListAppend(tx Tx, key []byte, x int, js *absJSON, p, key2, q []byte, idx2 uint32) {
	t := tx.(*absTx)
	sl := specList(p)
	lk := specCat(p, []byte("len"))
	b, ok := specAt(t.kv, lk)
	v.Requires(!ok || len(b) == 4)
	var n uint32
	if ok {
		n = specNum(b)
	}
	v.Requires(n < 0xffffffff)
	key0 := specCat(key, nil)
	ik := func(i uint32) []byte { return specCat(specCat(p, []byte("byidx:")), specLE(i)) }
	vk := func(k []byte) []byte { return specCat(specCat(p, []byte("list:")), k) }
	e2, was2 := specAt(t.kv, vk(key2))
	i2, wasI := specAt(t.kv, ik(idx2))
	o, wasO := specAt(t.kv, q)
	v.Modifies(t.kv)
	err := sl.Append(tx, key, x)
	b1, ok1 := specAt(t.kv, lk)
	e2n, is2 := specAt(t.kv, vk(key2))
	i2n, isI := specAt(t.kv, ik(idx2))
	on, isO := specAt(t.kv, q)
	if err == nil {
		v.Ensures("one element more", ok && ok1 && v.BytesEq(b1, specLE(n+1)))
		r, is := specAt(t.kv, vk(key0))
		v.Ensures("the element is stored by its key", is && v.BytesEq(r, js.enc))
		r, is = specAt(t.kv, ik(n))
		v.Ensures("the key is stored by its position", is && v.BytesEq(r, key0))
		v.Ensures("other keys keep their elements", v.BytesEq(key2, key0) || is2 == was2 && (!is2 || v.BytesEq(e2, e2n)))
		v.Ensures("other positions keep their keys", idx2 == n || isI == wasI && (!isI || v.BytesEq(i2, i2n)))
		v.Ensures("nothing but these three changes", v.BytesEq(q, lk) || v.BytesEq(q, ik(n)) || v.BytesEq(q, vk(key0)) || isO == wasO && (!isO || v.BytesEq(o, on)))
	} else {
		v.Ensures("a failed append changes nothing",
			ok1 == ok && (!ok || v.BytesEq(b1, b)) && is2 == was2 && (!is2 || v.BytesEq(e2, e2n)) &&
				isI == wasI && (!isI || v.BytesEq(i2, i2n)) && isO == wasO && (!isO || v.BytesEq(o, on)))
	}
}

//verif:contract prop=C23 target=StorageList.Get
func vc_ListGet(tx Tx, key []byte, x int, js *absJSON, p []byte) {
	t := tx.(*absTx)
	sl := specList(p)
	e, ok := specAt(t.kv, specCat(specCat(p, []byte("list:")), key))
	v.Modifies(js)
	err := sl.Get(tx, key, x)
	v.Ensures("the element stored under the key is what is read", err != nil || ok && v.BytesEq(js.dec, e))
	v.Ensures("not found only when never appended", err != ErrNotFound || !ok)
}

//verif:contract prop=C23 target=StorageList.GetByIdx
func vc_ListGetByIdx(tx Tx, i uint32, x int, js *absJSON, p []byte) {
	t := tx.(*absTx)
	sl := specList(p)
	k, okK := specAt(t.kv, specCat(specCat(p, []byte("byidx:")), specLE(i)))
	e, ok := specAt(t.kv, specCat(specCat(p, []byte("list:")), k))
	v.Modifies(js)
	r, err := sl.GetByIdx(tx, i, x)
	v.Ensures("the key stored at the position", err != nil || okK && v.BytesEq(r, k))
	v.Ensures("and the element of that key is what is read", err != nil || ok && v.BytesEq(js.dec, e))
	v.Ensures("not found only when never filled", err != ErrNotFound || !okK || !ok)
}

//verif:contract prop=C23 target=StoreJSON
func vc_StoreJSON(tx Tx, key []byte, x int, js *absJSON, k2 []byte) {
	t := tx.(*absTx)
	key0 := specCat(key, nil)
	w, was := specAt(t.kv, k2)
	v.Modifies(t.kv)
	err := StoreJSON(tx, key, x)
	b, ok := specAt(t.kv, key0)
	r, is := specAt(t.kv, k2)
	v.Ensures("stored under the key", err != nil || ok && v.BytesEq(b, js.enc))
	v.Ensures("nothing else changes", err == nil && v.BytesEq(k2, key0) || is == was && (!is || v.BytesEq(r, w)))
}

//verif:contract prop=C23 target=LoadJSON
func vc_LoadJSON(s Storage, key []byte, x int, js *absJSON) {
	b, ok := specAt(s.(*absStore).kv, key)
	v.Modifies(js)
	err := LoadJSON(s, key, x)
	v.Ensures("what is stored under the key is what is read", err != nil || ok && v.BytesEq(js.dec, b))
	v.Ensures("not found only when never stored", err != ErrNotFound || !ok)
}

// keys of values and lists under different storage keys of the same length never meet
//verif:contract prop=C23
func vc_DisjointKeys(p, q, s, t []byte) {
	v.Requires(len(p) == len(q) && !v.BytesEq(p, q))
	v.Ensures("different keys", !v.BytesEq(specCat(p, s), specCat(q, t)))
}
