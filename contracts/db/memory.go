package db

import (
	"crypto/sha256"

	v "github.com/iden3/go-iden3-core/zzverif"
)

// every pair is filed under the digest of its key
func specMapOK(m kvMap) bool {
	return v.Forall(func(h [32]byte) bool {
		kv, ok := m[h]
		return !ok || sha256.Sum256(kv.K) == h
	})
}

func specSameAt(a, b kvMap, h [32]byte) bool {
	x, ok1 := a[h]
	y, ok2 := b[h]
	return ok1 == ok2 && (!ok1 || v.BytesEq(x.V, y.V) && v.BytesEq(x.K, y.K))
}

// m is under with over written on top of it
func specOver(m, under, over kvMap) bool {
	return v.Forall(func(h [32]byte) bool {
		if _, ok := over[h]; ok {
			return specSameAt(m, over, h)
		}
		return specSameAt(m, under, h)
	})
}

// m is under with the pairs of over that have been seen written on top of it
func specOverSeen(m, under, over kvMap, seen map[[32]byte]bool) bool {
	return v.Forall(func(h [32]byte) bool {
		if _, ok := over[h]; ok && seen[h] {
			return specSameAt(m, over, h)
		}
		return specSameAt(m, under, h)
	})
}

func specCat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// what is stored under a key
func specAt(m kvMap, k []byte) ([]byte, bool) {
	kv, ok := m[sha256.Sum256(k)]
	return kv.V, ok
}

//verif:contract prop=C22 target=concat
func vc_concat(a, b []byte) {
	a0, b0 := specCat(a, nil), specCat(b, nil)
	c := concat(a, b)
	v.Ensures("the one after the other", v.BytesEq(c, specCat(a0, b0)))
}

//verif:contract prop=C22 target=kvMap.Get
func vc_kvGet(m kvMap, k []byte) {
	w, ok := specAt(m, k)
	r, found := m.Get(k)
	v.Ensures("what is stored under the key", found == ok && (!ok || v.BytesEq(r, w)))
}

//verif:contract prop=C22 target=kvMap.Put
func vc_kvPut(m kvMap, k, x, k2 []byte) {
	old := v.Old(m).(kvMap)
	v.Requires(m != nil && specMapOK(m))
	v.Modifies(m)
	m.Put(k, x)
	r, ok := specAt(m, k2)
	w, was := specAt(old, k2)
	v.Ensures("the written key has the value", !v.BytesEq(k, k2) || ok && v.BytesEq(r, x))
	v.Ensures("other keys keep theirs", v.BytesEq(k, k2) || ok == was && (!ok || v.BytesEq(r, w)))
	v.Ensures("filed under its digest", specMapOK(m))
}

//verif:contract prop=C22 target=MemoryStorage.Get
func vc_MemGet(s *MemoryStorage, k []byte) {
	w, ok := specAt(s.kv, specCat(s.prefix, k))
	r, err := s.Get(k)
	v.Ensures("not found exactly when never written", (err == ErrNotFound) == !ok && (err == nil) == ok)
	v.Ensures("what is stored under prefix and key", !ok || v.BytesEq(r, w))
}

//verif:contract prop=C22 target=MemoryStorageTx.Get
func vc_MemTxGet(t *MemoryStorageTx, k []byte) {
	full := specCat(t.s.prefix, k)
	w, ok := specAt(t.kv, full)
	if !ok {
		w, ok = specAt(t.s.kv, full)
	}
	r, err := t.Get(k)
	v.Ensures("not found exactly when never written", (err == ErrNotFound) == !ok && (err == nil) == ok)
	v.Ensures("the transaction's own last write, else the stored value", !ok || v.BytesEq(r, w))
}

//verif:contract prop=C22 target=MemoryStorageTx.Put
func vc_MemTxPut(t *MemoryStorageTx, k, x, k2 []byte) {
	v.Requires(t.kv != nil && specMapOK(t.kv))
	old := v.Old(t.kv).(kvMap)
	v.Modifies(t.kv)
	full, p := specCat(t.s.prefix, k), specCat(t.s.prefix, nil)
	t.Put(k, x)
	r, ok := specAt(t.kv, k2)
	w, was := specAt(old, k2)
	v.Ensures("the written key has the value", !v.BytesEq(full, k2) || ok && v.BytesEq(r, x))
	v.Ensures("other keys keep theirs", v.BytesEq(full, k2) || ok == was && (!ok || v.BytesEq(r, w)))
	v.Ensures("filed under its digest", specMapOK(t.kv))
	v.Ensures("the prefix stays", v.BytesEq(t.s.prefix, p))
}

//verif:inv target=MemoryStorageTx.Commit
func inv_memCommit(tx *MemoryStorageTx, seen map[[32]byte]bool, old kvMap) bool {
	return specOverSeen(tx.s.kv, old, tx.kv, seen)
}

//verif:contract prop=C22 target=MemoryStorageTx.Commit
func vc_MemCommit(t *MemoryStorageTx, old kvMap) {
	v.Requires(specMapOK(t.kv) && t.s.kv != nil)
	v.Requires(v.Forall(func(h [32]byte) bool { return specSameAt(t.s.kv, old, h) }))
	kv, base := t.kv, t.s.kv
	v.Modifies(t, base)
	err := t.Commit()
	v.Ensures("succeeds", err == nil)
	v.Ensures("after commit exactly the written pairs have changed", specOver(t.s.kv, old, kv))
	v.Ensures("the views share it", v.Same(t.s.kv, base))
}

//verif:inv target=MemoryStorageTx.Add
func inv_memAdd(tx *MemoryStorageTx, u *MemoryStorageTx, seen map[[32]byte]bool, old kvMap) bool {
	return specOverSeen(tx.kv, old, u.kv, seen)
}

//verif:contract prop=C22 target=MemoryStorageTx.Add
func vc_MemAdd(t, u *MemoryStorageTx, old kvMap) {
	v.Requires(specMapOK(u.kv) && t.kv != nil)
	v.Requires(v.Forall(func(h [32]byte) bool { return specSameAt(t.kv, old, h) }))
	v.Modifies(t.kv)
	t.Add(u)
	v.Ensures("the merged writes take effect", specOver(t.kv, old, u.kv))
}

//verif:contract prop=C22 target=MemoryStorage.WithPrefix
func vc_MemWithPrefix(s *MemoryStorage, p []byte) {
	want := specCat(s.prefix, p)
	w := s.WithPrefix(p).(*MemoryStorage)
	v.Ensures("prefixes accumulate over the same pairs", v.BytesEq(w.prefix, want) && v.Same(w.kv, s.kv))
}

//verif:contract prop=C22 target=MemoryStorage.NewTx
func vc_MemNewTx(s *MemoryStorage, k []byte) {
	t, err := s.NewTx()
	m := t.(*MemoryStorageTx)
	_, ok := specAt(m.kv, k)
	v.Ensures("starts with nothing written", err == nil && m.s == s && !ok && m.kv != nil)
}

// views with different prefixes of one length never see each other's writes
//verif:contract prop=C22
func vc_MemPrefixes(s *MemoryStorage, p, q, k, x, k2 []byte) {
	v.Requires(s.kv != nil)
	v.Modifies(s.kv)
	a, b := s.WithPrefix(p), s.WithPrefix(q)
	r0, err0 := b.Get(k2)
	v.Requires(len(p) == len(q))
	t, err := a.NewTx()
	v.Ensures("opens", err == nil)
	t.Put(k, x)
	own, e := t.Get(k)
	v.Ensures("a transaction reads its own write", e == nil && v.BytesEq(own, x))
	r1, err1 := b.Get(k2)
	v.Ensures("nothing is visible before commit", err1 == err0 && (err0 != nil || v.BytesEq(r0, r1)))
	v.Ensures("commits", t.Commit() == nil)
	r2, err2 := b.Get(k2)
	same := v.BytesEq(p, q) && v.BytesEq(k, k2)
	v.Ensures("a view sees the write exactly if prefix and key are the same", !same || err2 == nil && v.BytesEq(r2, x))
	v.Ensures("otherwise it sees what it saw", same || err2 == err0 && (err0 != nil || v.BytesEq(r0, r2)))
}
