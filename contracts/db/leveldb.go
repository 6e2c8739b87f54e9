package db

import (
	"crypto/sha256"

	v "github.com/iden3/go-iden3-core/zzverif"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/errors"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

// the database library taken as given: an atomic map from keys to values, any access of which may fail
type absDisk struct {
	kv    kvMap // on disk
	batch kvMap // put in the batch under construction
	puts  int
	wrote int
}

//verif:stub target=(*github.com/syndtr/goleveldb/leveldb.DB).Get
func stub_ldbGet(db *leveldb.DB, key []byte, ro *opt.ReadOptions, dk *absDisk) ([]byte, error) {
	if v.AnyBool("disk fails") {
		e := v.AnyErr("read failure")
		v.Requires(e != errors.ErrNotFound && e != ErrNotFound)
		return nil, e
	}
	x, ok := specAt(dk.kv, key)
	if !ok {
		return nil, errors.ErrNotFound
	}
	return x, nil
}

//verif:stub target=(*github.com/syndtr/goleveldb/leveldb.Batch).Put
func stub_batchPut(b *leveldb.Batch, key, value []byte, dk *absDisk) {
	dk.batch[sha256.Sum256(key)] = KV{key, value}
}

//verif:stub target=(*github.com/syndtr/goleveldb/leveldb.DB).Write
func stub_ldbWrite(db *leveldb.DB, b *leveldb.Batch, wo *opt.WriteOptions, dk *absDisk) error {
	dk.wrote++
	if v.AnyBool("disk fails") {
		return v.AnyErr("write failure")
	}
	var kv kvMap
	v.Any(&kv, "disk")
	v.Requires(specOver(kv, dk.kv, dk.batch))
	dk.kv = kv
	return nil
}

//verif:contract prop=C22 target=LevelDbStorage.Get
func vc_LdbGet(s *LevelDbStorage, k []byte, dk *absDisk) {
	w, ok := specAt(dk.kv, specCat(s.prefix, k))
	r, err := s.Get(k)
	v.Ensures("never written keys are never found", err != nil || ok)
	v.Ensures("not found only when never written", err != ErrNotFound || !ok)
	v.Ensures("what is stored under prefix and key", err != nil || v.BytesEq(r, w))
}

//verif:contract prop=C22 target=LevelDbStorageTx.Get
func vc_LdbTxGet(t *LevelDbStorageTx, k []byte, dk *absDisk) {
	full := specCat(t.prefix, k)
	w, own := specAt(t.cache, full)
	ok := own
	if !ok {
		w, ok = specAt(dk.kv, full)
	}
	r, err := t.Get(k)
	v.Ensures("its own writes are always read", !own || err == nil)
	v.Ensures("never written keys are never found", err != nil || ok)
	v.Ensures("not found only when never written", err != ErrNotFound || !ok)
	v.Ensures("the transaction's own last write, else the stored value", err != nil || v.BytesEq(r, w))
}

//verif:contract prop=C22 target=LevelDbStorageTx.Put
func vc_LdbTxPut(t *LevelDbStorageTx, k, x, k2 []byte) {
	v.Requires(t.cache != nil && specMapOK(t.cache))
	old := v.Old(t.cache).(kvMap)
	v.Modifies(t.cache)
	full := specCat(t.prefix, k)
	t.Put(k, x)
	r, ok := specAt(t.cache, k2)
	w, was := specAt(old, k2)
	v.Ensures("the written key has the value", !v.BytesEq(full, k2) || ok && v.BytesEq(r, x))
	v.Ensures("other keys keep theirs", v.BytesEq(full, k2) || ok == was && (!ok || v.BytesEq(r, w)))
	v.Ensures("filed under its digest", specMapOK(t.cache))
}

//verif:inv target=LevelDbStorageTx.Commit
func inv_ldbCommit(l *LevelDbStorageTx, seen map[[32]byte]bool, dk *absDisk) bool {
	return specOverSeen(dk.batch, kvMap{}, l.cache, seen)
}

//verif:contract prop=C22 target=LevelDbStorageTx.Commit
func vc_LdbCommit(t *LevelDbStorageTx, dk *absDisk) {
	v.Requires(specMapOK(t.cache))
	dk.batch = kvMap{}
	kv, old, n := t.cache, dk.kv, dk.wrote
	v.Modifies(t, dk)
	err := t.Commit()
	v.Ensures("everything is written at once", dk.wrote == n+1)
	if err == nil {
		v.Ensures("after commit exactly the written pairs have changed", specOver(dk.kv, old, kv))
	} else {
		v.Ensures("a failed commit changes nothing", specOver(dk.kv, old, kvMap{}))
	}
}

//verif:inv target=LevelDbStorageTx.Add
func inv_ldbAdd(tx *LevelDbStorageTx, u *LevelDbStorageTx, seen map[[32]byte]bool, old kvMap) bool {
	return specOverSeen(tx.cache, old, u.cache, seen)
}

//verif:contract prop=C22 target=LevelDbStorageTx.Add
func vc_LdbAdd(t, u *LevelDbStorageTx, old kvMap) {
	v.Requires(specMapOK(u.cache) && t.cache != nil)
	v.Requires(v.Forall(func(h [32]byte) bool { return specSameAt(t.cache, old, h) }))
	v.Modifies(t.cache)
	t.Add(u)
	v.Ensures("the merged writes take effect", specOver(t.cache, old, u.cache))
}

//verif:contract prop=C22 target=LevelDbStorage.WithPrefix
func vc_LdbWithPrefix(s *LevelDbStorage, p []byte) {
	want := specCat(s.prefix, p)
	w := s.WithPrefix(p).(*LevelDbStorage)
	v.Ensures("prefixes accumulate over the same database", v.BytesEq(w.prefix, want) && w.ldb == s.ldb)
}

//verif:contract prop=C22 target=LevelDbStorage.NewTx
func vc_LdbNewTx(s *LevelDbStorage, k []byte) {
	t, err := s.NewTx()
	m := t.(*LevelDbStorageTx)
	_, ok := specAt(m.cache, k)
	v.Ensures("starts with nothing written", err == nil && m.LevelDbStorage == s && !ok && m.cache != nil)
}
