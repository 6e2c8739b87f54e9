package merkletree

import (
	"math/big"

	"github.com/iden3/go-iden3-core/common"
	"github.com/iden3/go-iden3-core/db"
	v "github.com/iden3/go-iden3-core/zzverif"
)

// ---- abstract storage of a tree: any implementation of db.Storage, any step may fail.
// A node is what its key hashes (assumed when read, checked when written).

type absStore struct {
	hasRoot bool
	root    Hash
	commits int
}

type absTx struct {
	s       *absStore
	hasRoot bool
	root    Hash
	puts    int
}

func Abs_Storage() db.Storage {
	s := &absStore{}
	v.Any(&s.hasRoot, "hasRoot")
	v.Any(&s.root, "storedRoot")
	return s
}

func Abs_Tx() db.Tx {
	t := &absTx{s: &absStore{}}
	v.Any(&t.hasRoot, "txHasRoot")
	v.Any(&t.root, "txRoot")
	return t
}

func (s *absStore) Info() string                                  { return "" }
func (s *absStore) Close()                                        {}
func (s *absStore) WithPrefix([]byte) db.Storage                  { panic("not modelled") }
func (s *absStore) List(int) ([]db.KV, error)                     { panic("not modelled") }
func (s *absStore) Iterate(func([]byte, []byte) (bool, error)) error { panic("not modelled") }

func (s *absStore) NewTx() (db.Tx, error) {
	if v.AnyBool("no transaction") {
		return nil, otherErr("transaction failure")
	}
	return &absTx{s: s}, nil
}

func (s *absStore) Get(k []byte) ([]byte, error) {
	if len(k) != 32 {
		if v.AnyBool("unreadable") {
			e := otherErr("read failure")
			v.Requires(e != db.ErrNotFound)
			return nil, e
		}
		if !s.hasRoot {
			return nil, db.ErrNotFound
		}
		return specRootValue(s.root), nil
	}
	var key Hash
	copy(key[:], k)
	if v.AnyBool("leaf") {
		var d Data
		v.Any(&d, "data")
		v.Requires(specDataInField(d) && specLeaf(specHi(d), specHv(d)) == key)
		b := make([]byte, 257)
		b[0] = 1
		for i := 0; i < 8; i++ {
			copy(b[1+32*i:], d[i][:])
		}
		return b, nil
	}
	if v.AnyBool("middle") {
		var l, r Hash
		v.Any(&l, "left")
		v.Any(&r, "right")
		v.Requires(specInField(l) && specInField(r) && specMid(l, r) == key)
		b := make([]byte, 65)
		copy(b[1:], l[:])
		copy(b[33:], r[:])
		return b, nil
	}
	return nil, otherErr("no node")
}

// an error of the storage, which knows nothing of entries
func otherErr(what string) error {
	e := v.AnyErr(what)
	v.Requires(e != ErrEntryIndexNotFound && e != ErrEntryIndexAlreadyExists)
	return e
}

func specRootValue(r Hash) []byte {
	b := make([]byte, 33)
	b[0] = 3
	copy(b[1:], r[:])
	return b
}

func (t *absTx) Get(k []byte) ([]byte, error) { return t.s.Get(k) }
func (t *absTx) Close()                       {}
func (t *absTx) Add(db.Tx)                    { panic("not modelled") }

func (t *absTx) Put(k, b []byte) {
	t.puts++
	if len(k) != 32 {
		v.Assert("the root is stored under its own key", v.BytesEq(k, rootNodeValue))
		v.Assert("the root is stored in its format", len(b) == 33 && b[0] == 3)
		t.hasRoot = true
		copy(t.root[:], b[1:])
		return
	}
	var key Hash
	copy(key[:], k)
	if len(b) == 257 {
		d := specBytesData(b[1:])
		v.Assert("a stored leaf is filed under its key", b[0] == 1 && specDataInField(d) && specLeaf(specHi(d), specHv(d)) == key)
	} else {
		v.Assert("a stored middle node has its size", len(b) == 65 && b[0] == 0)
		l, r := specHashAt(b, 1), specHashAt(b, 33)
		v.Assert("a stored middle node is filed under its key", specInField(l) && specInField(r) && specMid(l, r) == key)
	}
}

func (t *absTx) Commit() error {
	if v.AnyBool("commit fails") {
		return otherErr("commit failure")
	}
	t.s.commits++
	if t.hasRoot {
		t.s.hasRoot = true
		t.s.root = t.root
	}
	return nil
}

// ---- what a key stands for

func specUn(k Hash, i int) Hash { return Hash(specElem(v.Unhash(specInt([32]byte(k)), i))) }

func specIsLeaf(k Hash) bool { return v.Unhash(specInt([32]byte(k)), 2).Cmp(big.NewInt(0)) != 0 }

func specDataOf(k Hash) (d Data) {
	hi, hv := specUn(k, 0), specUn(k, 1)
	for i := 0; i < 4; i++ {
		d[i] = ElemBytes(specElem(v.Unhash(specInt([32]byte(hi)), i)))
		d[4+i] = ElemBytes(specElem(v.Unhash(specInt([32]byte(hv)), i)))
	}
	return
}

// the leaf a lookup of hi ends at, starting at a node of level lvl
//verif:rec
func specGet(key, hi Hash, lvl, max int) (bool, Hash) {
	if lvl >= max || key == (Hash{}) {
		return false, Hash{}
	}
	if specIsLeaf(key) {
		if specUn(key, 0) == hi {
			return true, key
		}
		return false, Hash{}
	}
	if specIBit(hi, lvl) {
		return specGet(specUn(key, 1), hi, lvl+1, max)
	}
	return specGet(specUn(key, 0), hi, lvl+1, max)
}

func specNode(n *Node, key Hash) bool {
	switch n.Type {
	case NodeTypeEmpty:
		return key == Hash{}
	case NodeTypeLeaf:
		d := n.Entry.Data
		return specDataInField(d) && specLeaf(specHi(d), specHv(d)) == key && key != Hash{}
	case NodeTypeMiddle:
		return specInField(*n.ChildL) && specInField(*n.ChildR) && specMid(*n.ChildL, *n.ChildR) == key && key != Hash{}
	}
	return false
}

//verif:contract prop=C01,C03 target=MerkleTree.GetNode use
func vc_GetNode(mt *MerkleTree, key *Hash) {
	n, err := mt.GetNode(key)
	v.Ensures("node or error", (err == nil) == (n != nil))
	v.Ensures("a failing read says nothing about entries", err != ErrEntryIndexNotFound && err != ErrEntryIndexAlreadyExists)
	if err == nil {
		v.Ensures("nothing remembered", n.key == nil)
		v.Ensures("nothing remembered of the entry", n.Entry == nil || n.Entry.hIndex == nil && n.Entry.hValue == nil)
		v.Ensures("the node whose hash is the key", specNode(n, *key))
	}
}

//verif:memo Node.key Entry.hIndex Entry.hValue
func decl_memo() {}

//verif:inv target=MerkleTree.GetDataByIndex
func inv_gdbi(mt *MerkleTree, hIndex *Hash, nextKey *Hash, lvl int) bool {
	a, ka := specGet(*mt.rootKey, *hIndex, 0, mt.maxLevels)
	b, kb := specGet(*nextKey, *hIndex, lvl, mt.maxLevels)
	return a == b && ka == kb
}

//verif:inv target=MerkleTree.GetDataByIndex
func inv_gdbiLvl(mt *MerkleTree, lvl int) bool { return 0 <= lvl && lvl <= mt.maxLevels }

func specTreeOK(mt *MerkleTree) bool { return 1 <= mt.maxLevels && mt.maxLevels <= 240 }

//verif:contract prop=C03 target=MerkleTree.GetDataByIndex inj use
func vc_GetDataByIndex(mt *MerkleTree, hIndex *Hash) {
	v.Requires(specTreeOK(mt))
	d, err := mt.GetDataByIndex(hIndex)
	found, key := specGet(*mt.rootKey, *hIndex, 0, mt.maxLevels)
	v.Ensures("data or error", (err == nil) == (d != nil))
	v.Ensures("found only if the tree holds it", err != nil || found)
	v.Ensures("not found only if the tree does not hold it", err != ErrEntryIndexNotFound || !found)
	if err == nil {
		v.Ensures("exactly the data of the entry with that index", specDataInField(*d) && specLeaf(specHi(*d), specHv(*d)) == key && specHi(*d) == *hIndex)
	}
}

// ---- adding, as a function on keys

// two leaves below a node of level lvl
//verif:rec
func specPush(nk, nhi, ok, ohi Hash, lvl, max int) (bool, Hash) {
	if lvl > max-2 {
		return false, Hash{}
	}
	n, o := specIBit(nhi, lvl), specIBit(ohi, lvl)
	if n != o {
		if n {
			return true, specMid(ok, nk)
		}
		return true, specMid(nk, ok)
	}
	r, k := specPush(nk, nhi, ok, ohi, lvl+1, max)
	if !r {
		return false, Hash{}
	}
	if n {
		return true, specMid(Hash{}, k)
	}
	return true, specMid(k, Hash{})
}

// a leaf added to the tree at key, a node of level lvl
//verif:rec
func specAdd(key, nk, nhi Hash, lvl, max int) (bool, Hash) {
	if lvl > max-1 {
		return false, Hash{}
	}
	if key == (Hash{}) {
		return true, nk
	}
	if specIsLeaf(key) {
		if specUn(key, 0) == nhi {
			return false, Hash{}
		}
		return specPush(nk, nhi, key, specUn(key, 0), lvl, max)
	}
	if specIBit(nhi, lvl) {
		r, k := specAdd(specUn(key, 1), nk, nhi, lvl+1, max)
		if !r {
			return false, Hash{}
		}
		return true, specMid(specUn(key, 0), k)
	}
	r, k := specAdd(specUn(key, 0), nk, nhi, lvl+1, max)
	if !r {
		return false, Hash{}
	}
	return true, specMid(k, specUn(key, 1))
}

//verif:contract prop=C03,C04,C31 target=MerkleTree.addNode inj use
func vc_addNode(mt *MerkleTree, tx db.Tx, n *Node) {
	v.Requires(n.Type == NodeTypeMiddle || n.Type == NodeTypeLeaf)
	k, err := mt.addNode(tx, n)
	v.Ensures("key or error", (err == nil) == (k != nil))
	v.Ensures("refused when read-only", err != nil || mt.writable)
	v.Ensures("a failing write says nothing about entries", err != ErrEntryIndexAlreadyExists)
	if err == nil {
		if n.Type == NodeTypeMiddle {
			v.Ensures("key of the middle node", specInField(*n.ChildL) && specInField(*n.ChildR) && *k == specMid(*n.ChildL, *n.ChildR))
		} else {
			d := n.Entry.Data
			v.Ensures("key of the leaf", specDataInField(d) && *k == specLeaf(specHi(d), specHv(d)))
		}
	}
}

func specPathOK(path []bool, hi Hash, max int) bool {
	return len(path) == max && v.Forall(func(k int) bool { return !(0 <= k && k < max) || path[k] == specIBit(hi, k) })
}

//verif:contract prop=C03,C31 target=MerkleTree.pushLeaf inj use
func vc_pushLeaf(mt *MerkleTree, tx db.Tx, newLeaf *Node, oldLeaf *Node, lvl int, pathNewLeaf []bool, pathOldLeaf []bool) {
	v.Requires(specTreeOK(mt) && lvl >= 0 && lvl < 1000)
	v.Requires(newLeaf.Type == NodeTypeLeaf && oldLeaf.Type == NodeTypeLeaf)
	nd, od := newLeaf.Entry.Data, oldLeaf.Entry.Data
	v.Requires(specDataInField(nd) && specDataInField(od))
	nhi, ohi := specHi(nd), specHi(od)
	v.Requires(specPathOK(pathNewLeaf, nhi, mt.maxLevels) && specPathOK(pathOldLeaf, ohi, mt.maxLevels))
	k, err := mt.pushLeaf(tx, newLeaf, oldLeaf, lvl, pathNewLeaf, pathOldLeaf)
	ok, want := specPush(specLeaf(nhi, specHv(nd)), nhi, specLeaf(ohi, specHv(od)), ohi, lvl, mt.maxLevels)
	v.Ensures("key or error", (err == nil) == (k != nil))
	if err == nil {
		v.Ensures("both leaves placed at their paths", ok && *k == want)
	}
	v.Ensures("the entry is not there yet", err != ErrEntryIndexAlreadyExists)
}

//verif:contract prop=C03,C31 target=MerkleTree.addLeaf inj use
func vc_addLeaf(mt *MerkleTree, tx db.Tx, newLeaf *Node, key *Hash, lvl int, path []bool) {
	v.Requires(specTreeOK(mt) && lvl >= 0 && lvl < 1000)
	v.Requires(newLeaf.Type == NodeTypeLeaf)
	nd := newLeaf.Entry.Data
	v.Requires(specDataInField(nd))
	nhi := specHi(nd)
	v.Requires(specPathOK(path, nhi, mt.maxLevels))
	k, err := mt.addLeaf(tx, newLeaf, key, lvl, path)
	ok, want := specAdd(*key, specLeaf(nhi, specHv(nd)), nhi, lvl, mt.maxLevels)
	v.Ensures("key or error", (err == nil) == (k != nil))
	if err == nil {
		v.Ensures("the leaf placed at its path, nothing else changed", ok && *k == want)
	}
	found, _ := specGet(*key, nhi, lvl, mt.maxLevels)
	v.Ensures("reported as there only when it is", err != ErrEntryIndexAlreadyExists || found)
}

//verif:contract prop=C03,C04,C07,C31 target=MerkleTree.AddEntry inj use
func vc_AddEntry(mt *MerkleTree, e *Entry) {
	s := mt.storage.(*absStore)
	v.Requires(specTreeOK(mt))
	v.Requires(s.hasRoot && s.root == *mt.rootKey)
	old, commits, max := *mt.rootKey, s.commits, mt.maxLevels
	d := e.Data
	v.Modifies(&mt.rootKey, s)
	err := mt.AddEntry(e)
	v.Ensures("root in memory and on disk agree", s.hasRoot && mt.rootKey != nil && s.root == *mt.rootKey)
	if err == nil {
		ok, want := specAdd(old, specLeaf(specHi(d), specHv(d)), specHi(d), 0, max)
		v.Ensures("elements outside the field are refused", specDataInField(d))
		v.Ensures("the entry is added and nothing else changes", ok && *mt.rootKey == want)
		v.Ensures("committed at once", s.commits == commits+1)
	} else {
		v.Ensures("a failed addition changes nothing", *mt.rootKey == old && s.commits == commits)
	}
	found, _ := specGet(old, specHi(d), 0, max)
	v.Ensures("reported as there only when it is", err != ErrEntryIndexAlreadyExists || found)
	v.Ensures("the tree stays what it was", mt.maxLevels == max)
}

// ---- what adding does to lookups (C03), and that order does not matter (C31)

// k is the key of a leaf with index hi
func specLeafOf(k, hi Hash) bool { return k != Hash{} && specIsLeaf(k) && specUn(k, 0) == hi }

//verif:lemma inj
func lem_leaf(hi, hv Hash) {
	v.Requires(specInField(hi) && specInField(hv))
	v.Ensures("a leaf key is one", specLeafOf(specLeaf(hi, hv), hi))
}

//verif:lemma inj
func lem_mid(l, r Hash) {
	v.Requires(specInField(l) && specInField(r))
	k := specMid(l, r)
	v.Ensures("a middle key is one", k != Hash{} && !specIsLeaf(k) && specUn(k, 0) == l && specUn(k, 1) == r && specInField(k))
}

// two leaves placed below lvl: x finds them, and nothing else
//verif:lemma inj
func lem_pushGet(nk, nhi, ok, ohi Hash, lvl, max int, x Hash) {
	v.Requires(specInField(nk) && specInField(ok) && specLeafOf(nk, nhi) && specLeafOf(ok, ohi))
	v.Requires(0 <= lvl && lvl <= max && max <= 240)
	v.Decreases(max - lvl)
	r, k := specPush(nk, nhi, ok, ohi, lvl, max)
	v.Proof(func() {
		if lvl <= max-2 {
			lem_pushGet(nk, nhi, ok, ohi, lvl+1, max, x)
		}
	})
	v.Ensures("a key", !r || specInField(k) && k != Hash{})
	f, fk := specGet(k, x, lvl, max)
	v.Ensures("the new leaf is found", !r || x != nhi || f && fk == nk)
	v.Ensures("the old leaf is found", !r || x != ohi || nhi == ohi || f && fk == ok)
	v.Ensures("nothing else is found", !r || x == nhi || x == ohi || !f && fk == Hash{})
}

//verif:lemma inj
func lem_addGet(key, nk, nhi Hash, lvl, max int, x Hash) {
	v.Requires(specInField(key) && specInField(nk) && specLeafOf(nk, nhi))
	v.Requires(0 <= lvl && lvl <= max && max <= 240)
	v.Decreases(max - lvl)
	r, k := specAdd(key, nk, nhi, lvl, max)
	v.Proof(func() {
		if lvl <= max-1 && key != (Hash{}) {
			if specIsLeaf(key) {
				lem_pushGet(nk, nhi, key, specUn(key, 0), lvl, max, x)
			} else {
				lem_addGet(specUn(key, 0), nk, nhi, lvl+1, max, x)
				lem_addGet(specUn(key, 1), nk, nhi, lvl+1, max, x)
			}
		}
	})
	v.Ensures("a key", !r || specInField(k) && k != Hash{})
	f, fk := specGet(k, x, lvl, max)
	g, gk := specGet(key, x, lvl, max)
	v.Ensures("the new entry is found", !r || x != nhi || f && fk == nk)
	v.Ensures("all other lookups are as before", !r || x == nhi || f == g && fk == gk)
	v.Ensures("an index already there is refused", !r || x != nhi || !g)
}

//verif:contract prop=C03 inj
func vc_AddedIsFound(key, nhi, nhv, x Hash, max int) {
	v.Requires(1 <= max && max <= 240)
	v.Requires(specInField(key) && specInField(nhi) && specInField(nhv))
	nk := specLeaf(nhi, nhv)
	lem_leaf(nhi, nhv)
	lem_addGet(key, nk, nhi, 0, max, x)
	r, k := specAdd(key, nk, nhi, 0, max)
	f, fk := specGet(k, x, 0, max)
	g, gk := specGet(key, x, 0, max)
	v.Ensures("exactly the new entry appears", !r || x == nhi && !g && f && fk == nk || x != nhi && f == g && fk == gk)
}

//verif:lemma inj
func lem_pushSym(ak, ahi, bk, bhi Hash, lvl, max int) {
	v.Requires(ahi != bhi && 0 <= lvl && lvl <= max && max <= 240)
	v.Decreases(max - lvl)
	v.Proof(func() {
		if lvl <= max-2 {
			lem_pushSym(ak, ahi, bk, bhi, lvl+1, max)
		}
	})
	r, k := specPush(ak, ahi, bk, bhi, lvl, max)
	s, l := specPush(bk, bhi, ak, ahi, lvl, max)
	v.Ensures("either leaf may come first", r == s && k == l)
}

// a then b, added at key
func specAdd2(key, ak, ahi, bk, bhi Hash, lvl, max int) (bool, Hash) {
	r, k := specAdd(key, ak, ahi, lvl, max)
	if !r {
		return false, Hash{}
	}
	return specAdd(k, bk, bhi, lvl, max)
}

// a pushed against the leaf o, then b added
func specPush2(ak, ahi, bk, bhi, ok, ohi Hash, lvl, max int) (bool, Hash) {
	r, k := specPush(ak, ahi, ok, ohi, lvl, max)
	if !r {
		return false, Hash{}
	}
	return specAdd(k, bk, bhi, lvl, max)
}

// the key of two leaves pushed against each other is a middle node's
//verif:lemma inj
func lem_pushKey(ak, ahi, bk, bhi Hash, lvl, max int) {
	v.Requires(specInField(ak) && specInField(bk))
	v.Requires(0 <= lvl && lvl <= max && max <= 240)
	v.Decreases(max - lvl)
	v.Proof(func() {
		if lvl <= max-2 {
			lem_pushKey(ak, ahi, bk, bhi, lvl+1, max)
		}
	})
	r, k := specPush(ak, ahi, bk, bhi, lvl, max)
	v.Ensures("a key", !r || specInField(k) && k != Hash{})
}

//verif:lemma inj
func lem_addKey(key, nk, nhi Hash, lvl, max int) {
	v.Requires(specInField(key) && specInField(nk) && specLeafOf(nk, nhi))
	v.Requires(0 <= lvl && lvl <= max && max <= 240)
	v.Decreases(max - lvl)
	v.Proof(func() {
		if lvl <= max-1 && key != (Hash{}) {
			if specIsLeaf(key) {
				lem_pushKey(nk, nhi, key, specUn(key, 0), lvl, max)
			} else {
				lem_addKey(specUn(key, 0), nk, nhi, lvl+1, max)
				lem_addKey(specUn(key, 1), nk, nhi, lvl+1, max)
			}
		}
	})
	r, k := specAdd(key, nk, nhi, lvl, max)
	v.Ensures("a key", !r || specInField(k) && k != Hash{})
}

//verif:lemma inj
func lem_push3(ak, ahi, bk, bhi, ok, ohi Hash, lvl, max int) {
	v.Requires(ahi != bhi && ahi != ohi && bhi != ohi && 0 <= lvl && lvl <= max && max <= 240)
	v.Requires(specInField(ak) && specInField(bk) && specInField(ok))
	v.Requires(specLeafOf(ak, ahi) && specLeafOf(bk, bhi) && specLeafOf(ok, ohi))
	v.Decreases(max - lvl)
	v.Proof(func() {
		if lvl <= max-2 {
			lem_push3(ak, ahi, bk, bhi, ok, ohi, lvl+1, max)
			lem_pushSym(ak, ahi, bk, bhi, lvl+1, max)
			lem_pushKey(ak, ahi, ok, ohi, lvl+1, max)
			lem_pushKey(bk, bhi, ok, ohi, lvl+1, max)
		}
	})
	r, k := specPush2(ak, ahi, bk, bhi, ok, ohi, lvl, max)
	s, l := specPush2(bk, bhi, ak, ahi, ok, ohi, lvl, max)
	v.Ensures("either leaf may come first", r == s && k == l)
}

//verif:lemma inj
func lem_refused(key, nk, nhi Hash, lvl, max int) {
	v.Requires(0 <= lvl && lvl <= max && max <= 240)
	v.Decreases(max - lvl)
	v.Proof(func() {
		if lvl <= max-1 && key != (Hash{}) && !specIsLeaf(key) {
			lem_refused(specUn(key, 0), nk, nhi, lvl+1, max)
			lem_refused(specUn(key, 1), nk, nhi, lvl+1, max)
		}
	})
	f, _ := specGet(key, nhi, lvl, max)
	r, _ := specAdd(key, nk, nhi, lvl, max)
	v.Ensures("an index already there is refused", !f || !r)
}

//verif:lemma inj
func lem_commute(key, ak, ahi, bk, bhi Hash, lvl, max int) {
	v.Requires(ahi != bhi && 0 <= lvl && lvl <= max && max <= 240)
	v.Requires(specInField(key) && specInField(ak) && specInField(bk) && specLeafOf(ak, ahi) && specLeafOf(bk, bhi))
	v.Decreases(max - lvl)
	v.Proof(func() {
		if lvl <= max-1 {
			lem_pushSym(ak, ahi, bk, bhi, lvl, max)
			if key != (Hash{}) {
				l, r := specUn(key, 0), specUn(key, 1)
				if specIsLeaf(key) {
					if l != ahi && l != bhi {
						lem_push3(ak, ahi, bk, bhi, key, l, lvl, max)
					}
					lem_pushGet(ak, ahi, key, l, lvl, max, bhi)
					lem_pushGet(bk, bhi, key, l, lvl, max, ahi)
					_, p := specPush(ak, ahi, key, l, lvl, max)
					_, q := specPush(bk, bhi, key, l, lvl, max)
					lem_pushKey(ak, ahi, key, l, lvl, max)
					lem_pushKey(bk, bhi, key, l, lvl, max)
					if l == bhi && l != ahi && lvl <= max-2 {
						lem_refused(p, bk, bhi, lvl, max)
					}
					if l == ahi && l != bhi && lvl <= max-2 {
						lem_refused(q, ak, ahi, lvl, max)
					}
				} else {
					lem_commute(l, ak, ahi, bk, bhi, lvl+1, max)
					lem_commute(r, ak, ahi, bk, bhi, lvl+1, max)
					lem_addKey(l, ak, ahi, lvl+1, max)
					lem_addKey(l, bk, bhi, lvl+1, max)
					lem_addKey(r, ak, ahi, lvl+1, max)
					lem_addKey(r, bk, bhi, lvl+1, max)
				}
			}
		}
	})
	r, k := specAdd2(key, ak, ahi, bk, bhi, lvl, max)
	s, l := specAdd2(key, bk, bhi, ak, ahi, lvl, max)
	v.Ensures("either entry may come first", r == s && k == l)
}

//verif:contract prop=C31 inj
func vc_OrderDoesNotMatter(key, ahi, ahv, bhi, bhv Hash, max int) {
	v.Requires(1 <= max && max <= 240 && ahi != bhi)
	v.Requires(specInField(key) && specInField(ahi) && specInField(ahv) && specInField(bhi) && specInField(bhv))
	ak, bk := specLeaf(ahi, ahv), specLeaf(bhi, bhv)
	lem_leaf(ahi, ahv)
	lem_leaf(bhi, bhv)
	lem_commute(key, ak, ahi, bk, bhi, 0, max)
	r, k := specAdd2(key, ak, ahi, bk, bhi, 0, max)
	s, l := specAdd2(key, bk, bhi, ak, ahi, 0, max)
	v.Ensures("two entries added in either order give the same root, or neither order is possible", r == s && k == l)
}

// a root determines every lookup, so trees that differ in an entry differ in the root
//verif:contract prop=C31 inj
func vc_DifferentEntriesDifferentRoots(key, nhi, nhv Hash, max int) {
	v.Requires(1 <= max && max <= 240)
	v.Requires(specInField(key) && specInField(nhi) && specInField(nhv))
	nk := specLeaf(nhi, nhv)
	lem_leaf(nhi, nhv)
	lem_addGet(key, nk, nhi, 0, max, nhi)
	r, k := specAdd(key, nk, nhi, 0, max)
	v.Ensures("adding an entry changes the root", !r || k != key)
}

//verif:contract prop=C31 inj
func vc_DifferentValuesDifferentRoots(key, key2, hi, hv, hv2 Hash, max int) {
	v.Requires(1 <= max && max <= 240 && hv != hv2)
	v.Requires(specInField(key) && specInField(key2) && specInField(hi) && specInField(hv) && specInField(hv2))
	a, b := specLeaf(hi, hv), specLeaf(hi, hv2)
	lem_leaf(hi, hv)
	lem_leaf(hi, hv2)
	lem_addGet(key, a, hi, 0, max, hi)
	lem_addGet(key2, b, hi, 0, max, hi)
	r, k := specAdd(key, a, hi, 0, max)
	s, l := specAdd(key2, b, hi, 0, max)
	v.Ensures("trees holding different values under an index have different roots", !r || !s || k != l)
}

// ---- generated proofs (C01)

// the key reached at level l on hi's path
//verif:rec
func specAt(root, hi Hash, l int) Hash {
	if l <= 0 {
		return root
	}
	p := specAt(root, hi, l-1)
	if specIBit(hi, l-1) {
		return specUn(p, 1)
	}
	return specUn(p, 0)
}

// the key beside the path below level l
func specBeside(root, hi Hash, l int) Hash {
	p := specAt(root, hi, l)
	if specIBit(hi, l) {
		return specUn(p, 0)
	}
	return specUn(p, 1)
}

// the number of non-empty keys beside the path above level l
//verif:rec
func specTCnt(root, hi Hash, l int) int {
	if l <= 0 {
		return 0
	}
	if specBeside(root, hi, l-1) != (Hash{}) {
		return specTCnt(root, hi, l-1) + 1
	}
	return specTCnt(root, hi, l-1)
}

//verif:lemma auto=specTCnt
func lem_tcntBounds(root, hi Hash, l int) {
	v.Requires(0 <= l && l <= 240)
	v.Decreases(l)
	v.Proof(func() {
		if l > 0 {
			lem_tcntBounds(root, hi, l-1)
		}
	})
	v.Ensures("between zero and l", 0 <= specTCnt(root, hi, l) && specTCnt(root, hi, l) <= l)
}

// the bitmap of the path above level d
//verif:rec
func specBM(root, hi Hash, d int) [30]byte {
	if d <= 0 {
		return [30]byte{}
	}
	b := specBM(root, hi, d-1)
	if specBeside(root, hi, d-1) != (Hash{}) {
		common.SetBitBigEndian(b[:], uint(d-1))
	}
	return b
}

//verif:lemma
func lem_bm(root, hi Hash, d, k int) {
	v.Requires(0 <= d && d <= 240 && 0 <= k && k < 240)
	v.Decreases(d)
	v.Proof(func() {
		if d > 0 {
			lem_bm(root, hi, d-1, k)
		}
	})
	v.Ensures("a bit for each non-empty sibling", specPBit(specBM(root, hi, d), k) == (k < d && specBeside(root, hi, k) != Hash{}))
}

func specSibsAre(root, hi Hash, sibs []*Hash, d int) bool {
	return v.Forall(func(k int) bool {
		if !(0 <= k && k < d) || specBeside(root, hi, k) == (Hash{}) {
			return true
		}
		c := specTCnt(root, hi, k)
		return 0 <= c && c < len(sibs) && *sibs[c] == specBeside(root, hi, k)
	})
}

func specMiddles(root, hi Hash, d int) bool {
	return v.Forall(func(k int) bool {
		p := specAt(root, hi, k)
		return !(0 <= k && k < d) || p == specMid(specUn(p, 0), specUn(p, 1))
	})
}

//verif:inv target=MerkleTree.GenerateProof
func inv_gpKey(hIndex, rootKey, nextKey *Hash, p *Proof) bool {
	return *nextKey == specAt(*rootKey, *hIndex, int(p.depth))
}

//verif:inv target=MerkleTree.GenerateProof
func inv_gpDepth(mt *MerkleTree, p *Proof) bool { return p.depth <= uint(mt.maxLevels) }

//verif:inv target=MerkleTree.GenerateProof
func inv_gpGet(mt *MerkleTree, hIndex, rootKey, nextKey *Hash, p *Proof) bool {
	a, ka := specGet(*rootKey, *hIndex, 0, mt.maxLevels)
	b, kb := specGet(*nextKey, *hIndex, int(p.depth), mt.maxLevels)
	return a == b && ka == kb
}

//verif:inv target=MerkleTree.GenerateProof
func inv_gpPlain(p *Proof) bool { return !p.Existence && p.NodeAux == nil }

//verif:inv target=MerkleTree.GenerateProof
func inv_gpBitmap(hIndex, rootKey *Hash, p *Proof) bool {
	return p.notempties == specBM(*rootKey, *hIndex, int(p.depth))
}

//verif:inv target=MerkleTree.GenerateProof
func inv_gpCount(hIndex, rootKey *Hash, p *Proof) bool {
	return len(p.Siblings) == specTCnt(*rootKey, *hIndex, int(p.depth))
}

//verif:inv target=MerkleTree.GenerateProof
func inv_gpSibs(hIndex, rootKey *Hash, p *Proof) bool {
	return specSibsAre(*rootKey, *hIndex, p.Siblings, int(p.depth))
}

//verif:inv target=MerkleTree.GenerateProof
func inv_gpMid(hIndex, rootKey *Hash, p *Proof) bool {
	return specMiddles(*rootKey, *hIndex, int(p.depth))
}

//verif:contract prop=C01 target=MerkleTree.GenerateProof inj use
func vc_GenerateProof(mt *MerkleTree, hIndex *Hash, rootKey *Hash) {
	v.Requires(specTreeOK(mt))
	root := *mt.rootKey
	if rootKey != nil {
		root = *rootKey
	}
	p, err := mt.GenerateProof(hIndex, rootKey)
	v.Ensures("proof or error", (err == nil) == (p != nil))
	if err == nil {
		ensProof(mt, p, root, *hIndex)
	}
}

//verif:contract prop=C01 target=MerkleTree.GenerateProof inj
func vc_GenerateProofNow(mt *MerkleTree, hIndex *Hash) {
	v.Requires(specTreeOK(mt))
	p, err := mt.GenerateProof(hIndex, nil)
	v.Ensures("proof or error", (err == nil) == (p != nil))
	if err == nil {
		ensProof(mt, p, *mt.rootKey, *hIndex)
	}
}

func ensProof(mt *MerkleTree, p *Proof, root, hi Hash) {
	d := int(p.depth)
	end := specAt(root, hi, d)
	found, key := specGet(root, hi, 0, mt.maxLevels)
	v.Ensures("depth", p.depth < uint(mt.maxLevels))
	v.Ensures("exists exactly when the tree holds the index", p.Existence == found)
	v.Ensures("the entry is where the path ends", !found || key == end)
	v.Ensures("a neighbour only when there is no entry", !p.Existence || p.NodeAux == nil)
	v.Ensures("no neighbour only at an empty place", p.Existence || p.NodeAux != nil || end == Hash{})
	if p.NodeAux != nil {
		v.Ensures("the neighbour is where the path ends", specInField(*p.NodeAux.HIndex) && specInField(*p.NodeAux.HValue) && end == specLeaf(*p.NodeAux.HIndex, *p.NodeAux.HValue))
		v.Ensures("the neighbour is another entry", *p.NodeAux.HIndex != hi)
	}
	v.Ensures("bitmap", p.notempties == specBM(root, hi, d))
	v.Ensures("number of siblings", len(p.Siblings) == specTCnt(root, hi, d))
	v.Ensures("siblings", specSibsAre(root, hi, p.Siblings, d))
	v.Ensures("middle nodes", specMiddles(root, hi, d))
}

// counting siblings in the bitmap or in the tree is the same
//verif:lemma inj
func lem_cntAre(root, hi Hash, bm [30]byte, d, l int) {
	v.Requires(0 <= l && l <= d && d <= 240 && bm == specBM(root, hi, d))
	v.Decreases(l)
	v.Proof(func() {
		if l > 0 {
			lem_cntAre(root, hi, bm, d, l-1)
			lem_bm(root, hi, d, l-1)
		}
	})
	v.Ensures("as many", specCnt(bm, l) == specTCnt(root, hi, l))
}

// the siblings folded from the path's end give the root
//verif:lemma inj
func lem_foldIsRoot(root, hi Hash, bm [30]byte, sibs []*Hash, d, l int) {
	v.Requires(0 <= l && l <= d && d <= 240 && bm == specBM(root, hi, d))
	v.Requires(specSibsAre(root, hi, sibs, d) && specMiddles(root, hi, d))
	v.Decreases(d - l)
	v.Proof(func() {
		if l < d {
			lem_foldIsRoot(root, hi, bm, sibs, d, l+1)
			lem_cntAre(root, hi, bm, d, l)
			lem_bm(root, hi, d, l)
		}
	})
	v.Ensures("the key on the path", specFold(hi, bm, sibs, d, l, specAt(root, hi, d)) == specAt(root, hi, l))
}

//verif:lemma inj
func lem_sibsOK(root, hi Hash, bm [30]byte, sibs []*Hash, d, l int) {
	v.Requires(0 <= l && l <= d && d <= 240 && bm == specBM(root, hi, d))
	v.Requires(specSibsAre(root, hi, sibs, d))
	v.Decreases(l)
	v.Proof(func() {
		if l > 0 {
			lem_sibsOK(root, hi, bm, sibs, d, l-1)
			lem_cntAre(root, hi, bm, d, l-1)
			lem_bm(root, hi, d, l-1)
			v.Assert("beside the path", specInField(specBeside(root, hi, l-1)))
		}
	})
	v.Ensures("in the field", specSibsOK(bm, sibs, l))
}

// different leaves give different roots
//verif:lemma inj
func lem_foldInj(hi Hash, bm [30]byte, sibs []*Hash, d, l int, a, b Hash) {
	v.Requires(0 <= l && l <= d && d <= 240 && len(sibs) == specCnt(bm, d) && specSibsOK(bm, sibs, d))
	v.Requires(specInField(a) && specInField(b))
	v.Decreases(d - l)
	v.Proof(func() {
		if l < d {
			lem_foldInj(hi, bm, sibs, d, l+1, a, b)
			lem_cntMono(bm, l+1, d)
			lem_sibOK(bm, sibs, d, l)
		}
	})
	x, y := specFold(hi, bm, sibs, d, l, a), specFold(hi, bm, sibs, d, l, b)
	v.Ensures("in the field", specInField(x) && specInField(y))
	v.Ensures("different", a == b || x != y)
}

//verif:lemma inj
func lem_sibOK(bm [30]byte, sibs []*Hash, d, l int) {
	v.Requires(0 <= l && l < d && d <= 240 && specCnt(bm, d) <= len(sibs) && specSibsOK(bm, sibs, d))
	v.Decreases(d)
	v.Proof(func() {
		lem_cntMono(bm, l+1, d)
		if l < d-1 {
			lem_sibOK(bm, sibs, d-1, l)
		}
	})
	v.Ensures("in the field", specInField(specSib(bm, sibs, l)))
}

//verif:contract prop=C01 inj
func vc_GeneratedProofVerifies(mt *MerkleTree, hIndex, rootKey, hv, other *Hash) {
	v.Requires(specTreeOK(mt))
	p, err := mt.GenerateProof(hIndex, rootKey)
	if err != nil {
		return
	}
	d := int(p.depth)
	found, key := specGet(*rootKey, *hIndex, 0, mt.maxLevels)
	if found {
		v.Requires(specInField(*hIndex) && specInField(*hv) && key == specLeaf(*hIndex, *hv))
	}
	lem_cntAre(*rootKey, *hIndex, p.notempties, d, d)
	lem_foldIsRoot(*rootKey, *hIndex, p.notempties, p.Siblings, d, 0)
	lem_sibsOK(*rootKey, *hIndex, p.notempties, p.Siblings, d, d)
	r, err := RootFromProof(p, hIndex, hv)
	v.Ensures("the proof gives back exactly the root", err == nil && r != nil && *r == *rootKey)
	v.Ensures("and verifies", VerifyProof(rootKey, p, hIndex, hv))
	v.Ensures("and verifies under no other root", *other == *rootKey || !VerifyProof(other, p, hIndex, hv))
	if found && *other != *hv && specInField(*other) {
		a, b := specLeaf(*hIndex, *hv), specLeaf(*hIndex, *other)
		lem_foldInj(*hIndex, p.notempties, p.Siblings, d, 0, a, b)
		v.Ensures("and verifies no other value", !VerifyProof(rootKey, p, hIndex, other))
	}
	if p.NodeAux != nil {
		v.Ensures("and never verifies for the neighbour's own index", !VerifyProof(rootKey, p, p.NodeAux.HIndex, other))
	}
}
